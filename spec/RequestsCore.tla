---------------------------- MODULE RequestsCore ----------------------------
(* Outstanding requests of the client: who waits for what, how answers and the loss of answers are distributed.          *)
(* Parties are numbers > 0; as waiting party, -p stands for "p depends on this parameter".                                *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets

VARIABLES
    cfg,     \* pr: seq. of parameters [cc: response number, nreq: number of request messages (0: pushed by the device, never requested),
             \*                          dep: parameter this one depends on (0: none)]
             \* party: seq. of sequences of parameters used; nest: per party, parameter it asks for when being notified (0: none)
             \* life: request lifetime; interval: update interval
    val,     \* per parameter: value (-1: unknown)
    reqs,    \* outstanding requests in order: [p, w: waiting parties, age, done]
    last,    \* per parameter: last value of the parameter it depends on
    lis,     \* per parameter: parties interested in it (only dependent ones)
    cl, upd  \* time since last cleanup / update cycle

CoreView == [v |-> val, r |-> reqs, l |-> last, i |-> lis, cl |-> cl, u |-> upd]
P == 1..Len(cfg.pr)
(* time counters only matter up to the limit they are compared with *)
Cap(n, lim) == IF n > lim THEN lim + 1 ELSE n
Perm(p) == cfg.pr[p].nreq = 0

(* S: working state [val, reqs, last, lis, log, sent]. Events in log: <<1, l, p, v>> answered, <<2, l, p>> given up *)
RECURSIVE FindFrom(_, _, _)
FindFrom(rs, p, i) == IF i > Len(rs) THEN 0 ELSE IF rs[i].p = p /\ ~rs[i].done THEN i ELSE FindFrom(rs, p, i + 1)
Find(S, p) == FindFrom(S.reqs, p, 1)
AddTo(w, l) == IF l = 0 \/ l \in ToSet(w) THEN w ELSE Append(w, l)
ReqMsgs(p) == [k \in 1..cfg.pr[p].nreq |-> <<p, k>>]

Register(S, p, l) ==
    LET i == Find(S, p) IN
    IF i = 0 THEN [S EXCEPT !.reqs = Append(@, [p |-> p, w |-> AddTo(<<>>, l), age |-> 0, done |-> FALSE]),
                            !.sent = @ \o ReqMsgs(p)]
    ELSE [S EXCEPT !.reqs[i].w = AddTo(@, l)]

Ask(S, p, l) ==
    IF Perm(p) THEN S
    ELSE IF cfg.pr[p].dep # 0
         THEN Register([S EXCEPT !.lis[p] = IF l \in ToSet(@) THEN @ ELSE Append(@, l)], cfg.pr[p].dep, -p)
         ELSE Register(S, p, l)

Nested(S, l) == IF cfg.nest[l] = 0 THEN S ELSE Ask(S, cfg.nest[l], l)

Notify(S, l, p) ==
    IF l < 0
    THEN IF S.val[p] = S.last[-l] THEN S
         ELSE FoldLeft(LAMBDA T, x : Register(T, -l, x), [S EXCEPT !.last[-l] = S.val[p]], S.lis[-l])
    ELSE Nested([S EXCEPT !.log = Append(@, <<1, l, p, S.val[p]>>)], l)

Terminated(S, l, p) ==
    IF l < 0 THEN S
    ELSE Nested([S EXCEPT !.log = Append(@, <<2, l, p>>), !.val[p] = IF p \in ToSet(cfg.party[l]) THEN -1 ELSE @], l)

(* Parties joining while a request is being answered are told, too *)
RECURSIVE All(_, _, _, _)
All(S, i, j, ok) == IF j > Len(S.reqs[i].w) THEN S
                    ELSE All(IF ok THEN Notify(S, S.reqs[i].w[j], S.reqs[i].p) ELSE Terminated(S, S.reqs[i].w[j], S.reqs[i].p), i, j + 1, ok)

Purge(S) == [S EXCEPT !.reqs = SelectSeq(@, LAMBDA r : ~r.done)]

(* A message is matched against all requests pending when it arrives *)
RECURSIVE Answer(_, _, _, _, _)
Answer(S, i, n, c, v) ==
    IF i > n THEN Purge(S)
    ELSE IF cfg.pr[S.reqs[i].p].cc = c
         THEN LET T == All([S EXCEPT !.val[S.reqs[i].p] = v], i, 1, TRUE)
              IN Answer(IF Perm(S.reqs[i].p) THEN T ELSE [T EXCEPT !.reqs[i].done = TRUE], i + 1, n, c, v)
         ELSE Answer(S, i + 1, n, c, v)
Msg(S, m) == Answer(S, 1, Len(S.reqs), m[1], m[2])

RECURSIVE Cleanup(_, _)
Cleanup(S, i) ==
    IF i > Len(S.reqs) THEN Purge(S)
    ELSE IF ~Perm(S.reqs[i].p) /\ S.reqs[i].age > cfg.life
         THEN Cleanup([All(S, i, 1, FALSE) EXCEPT !.reqs[i].done = TRUE], i + 1)
         ELSE Cleanup(S, i + 1)

Cycle(S) == FoldLeft(LAMBDA T, l : FoldLeft(LAMBDA U, p : Ask(U, p, l), T, cfg.party[l]), S, [k \in 1..Len(cfg.party) |-> k])

Work == [val |-> val, reqs |-> reqs, last |-> last, lis |-> lis, log |-> <<>>, sent |-> <<>>]
CoreInit(c) ==
    /\ cfg = c
    /\ LET n == 1..Len(c.pr)
           used == SelectSeq(FlattenSeq(c.party), LAMBDA p : c.pr[p].nreq = 0)
           RECURSIVE Uniq(_, _)
           Uniq(s, acc) == IF s = <<>> THEN acc ELSE Uniq(Tail(s), IF Head(s) \in ToSet(acc) THEN acc ELSE Append(acc, Head(s)))
           users(p) == SelectSeq([k \in 1..Len(c.party) |-> k], LAMBDA l : p \in ToSet(c.party[l]))
           u == Uniq(used, <<>>)
       IN /\ val = [p \in n |-> -1]
          /\ last = [p \in n |-> -1]
          /\ lis = [p \in n |-> <<>>]
          /\ reqs = [k \in 1..Len(u) |-> [p |-> u[k], w |-> users(u[k]), age |-> 0, done |-> FALSE]]
    /\ cl = Cap(1000, c.life \div 2) /\ upd = Cap(1000, c.interval)

CommitCore(S) == val' = S.val /\ reqs' = S.reqs /\ last' = S.last /\ lis' = S.lis

(* Time passes, then the messages are handled *)
Aged(dt) == [Work EXCEPT !.reqs = [i \in DOMAIN reqs |-> [reqs[i] EXCEPT !.age = IF Perm(reqs[i].p) THEN 0 ELSE Cap(@ + dt, cfg.life)]]]
CleanDue(dt) == cl + dt > cfg.life \div 2
CycleDue(dt) == upd + dt > cfg.interval
Received(dt, msgs) == FoldLeft(Msg, IF CleanDue(dt) THEN Cleanup(Aged(dt), 1) ELSE Aged(dt), msgs)
Clocks(dt) == /\ cl' = IF CleanDue(dt) THEN 0 ELSE cl + dt
              /\ upd' = IF CycleDue(dt) THEN 0 ELSE upd + dt

-----------------------------------------------------------------------------
OneOutstanding == \A i, j \in DOMAIN reqs : i # j => reqs[i].p # reqs[j].p
NoDup == \A i \in DOMAIN reqs : Cardinality(ToSet(reqs[i].w)) = Len(reqs[i].w)
AllOpen == \A i \in DOMAIN reqs : ~reqs[i].done
CoreSafety == OneOutstanding /\ NoDup /\ AllOpen
=============================================================================
