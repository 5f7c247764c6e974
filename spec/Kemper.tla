------------------------------ MODULE Kemper ------------------------------
(* Bidirectional communication with the Profiler: initiation, keep-alive, loss detection; parameters pushed by the        *)
(* Profiler (cfg.pr[p].proto) next to requested ones. Messages: <<id, v>> the Profiler reports value v for the parameter  *)
(* with catalogue number id; <<0, x>> sense message; <<-1, x>> anything else.                                              *)
EXTENDS RequestsCore
VARIABLES k, act, out
    (* cfg additionally: pr[p].proto, pr[p].rq: request messages (bytes), pr[p].set: beginning of the message to set it     ; *)
    (* lease: lease time in seconds; tm: tuner mode flag *)
    (* k: [run, ini: time since last initiating beacon, sense: since last sense message, res: since last keep-alive,      *)
    (*     first: an initiating beacon has been sent, ever: has been running, dot: indicator drawn (0 not yet, 1 off, 2 on)] *)

vars == <<cfg, val, reqs, last, lis, cl, upd, k, act, out>>
View == [c |-> cfg, x |-> CoreView, k |-> k]

InitPeriod == 5000
SensePeriod == 1500
Resend == cfg.lease * 500
Beacon(init) == <<240, 0, 32, 51, 2, 127, 126, 0, 64, 2, (IF init THEN 1 ELSE 0) + 2 + (IF cfg.tm THEN 32 ELSE 0), cfg.lease \div 2>>

Bytes(s) == [i \in DOMAIN s |-> IF s[i][1] < 100 THEN cfg.pr[s[i][1]].rq[s[i][2]] ELSE s[i]]
Dot(n) == CASE n = 0 -> <<0, 0, 0>> [] n = 1 -> <<255, 0, 0>> [] n = 2 -> <<0, 255, 0>>
Commit(S, kk) == /\ CommitCore(S) /\ k' = kk
                 /\ out' = [exc |-> "", sent |-> Bytes(S.sent), log |-> S.log, val |-> S.val, dot |-> Dot(kk.dot)]

InitWith(c) ==
    /\ CoreInit(c)
    /\ k = [run |-> FALSE, ini |-> 1000, sense |-> 0, res |-> 1000, first |-> FALSE, ever |-> FALSE, dot |-> 0]
    /\ out = [exc |-> "", sent |-> <<>>, log |-> <<>>, val |-> [p \in 1..Len(c.pr) |-> -1], dot |-> <<0, 0, 0>>]
    /\ act = [op |-> "init"]

Sense(kk) == IF ~kk.first THEN kk
             ELSE [kk EXCEPT !.sense = 0, !.run = TRUE, !.ever = TRUE, !.res = IF kk.run THEN @ ELSE 0]

(* All parties using parameters pushed by the Profiler are told that the values are gone *)
Lost(S) == LET RECURSIVE L(_, _)
               L(T, i) == IF i > Len(T.reqs) THEN T ELSE L(IF cfg.pr[T.reqs[i].p].proto THEN All(T, i, 1, FALSE) ELSE T, i + 1)
           IN L(S, 1)
Send(S, b) == [S EXCEPT !.sent = Append(@, b)]

Protocol(S, kk) ==
    IF kk.run
    THEN IF kk.sense > SensePeriod THEN <<S, [kk EXCEPT !.run = FALSE, !.sense = 0]>>
         ELSE IF kk.res > Resend THEN <<Send(S, Beacon(FALSE)), [kk EXCEPT !.res = 0]>>
         ELSE <<S, kk>>
    ELSE IF kk.ini > InitPeriod THEN <<Send(IF kk.ever THEN Lost(S) ELSE S, Beacon(TRUE)), [kk EXCEPT !.ini = 0, !.first = TRUE]>>
         ELSE <<S, kk>>

Tick(dt, msgs) ==
    LET S1 == Received(dt, msgs)
        k0 == [k EXCEPT !.ini = Cap(@ + dt, InitPeriod), !.sense = Cap(@ + dt, SensePeriod), !.res = Cap(@ + dt, Resend)]
        k1 == IF \E i \in DOMAIN msgs : msgs[i][1] = 0 THEN Sense(k0) ELSE k0
        pr == Protocol(S1, k1)
    IN /\ IF CycleDue(dt) THEN Commit(Cycle(pr[1]), [pr[2] EXCEPT !.dot = IF pr[2].run THEN 2 ELSE 1])
          ELSE Commit(S1, k1)
       /\ Clocks(dt) /\ UNCHANGED cfg

AskNow(l, p) == Commit(Ask(Work, p, l), k) /\ UNCHANGED <<cfg, cl, upd>>

(* Setting a parameter which the Profiler pushes but does not echo: all its users see the value at once *)
SetNow(p, v) ==
    LET S == Send(Work, cfg.pr[p].set \o IF Len(cfg.pr[p].set) = 2 THEN <<v>> ELSE <<v \div 128, v % 128>>)
        i == Find(S, p)
        T == IF ~cfg.pr[p].proto THEN S
             ELSE IF i = 0 THEN [S EXCEPT !.val[p] = v] ELSE All([S EXCEPT !.val[p] = v], i, 1, TRUE)
    IN Commit(T, k) /\ UNCHANGED <<cfg, cl, upd>>

Do(a) ==
    /\ act' = a
    /\ CASE a.op = "tick" -> Tick(a.dt, a.msgs)
         [] a.op = "ask"  -> AskNow(a.l, a.p)
         [] a.op = "set"  -> SetNow(a.p, a.v)
-----------------------------------------------------------------------------
Safety == /\ CoreSafety
          /\ k.run => k.first /\ k.ever
          /\ \A i \in DOMAIN reqs : cfg.pr[reqs[i].p].proto => Perm(reqs[i].p)
IsBeacon(m) == Len(m) = 12 /\ m[1] = 240 /\ m[7] = 126
StepOK ==
    LET bs == SelectSeq(out'.sent, IsBeacon) IN
    /\ Len(bs) <= 1
    /\ Len(bs) = 1 => /\ act'.op = "tick" /\ upd' = 0
                      /\ IF k'.run THEN bs[1][11] % 2 = 0 /\ k.res + act'.dt > Resend
                         ELSE bs[1][11] % 2 = 1 /\ k.ini + act'.dt > InitPeriod
    (* connected only by a sense message, lost only by 1.5 s of silence *)
    /\ (k'.run /\ ~k.run) => (k.first /\ act'.op = "tick" /\ \E i \in DOMAIN act'.msgs : act'.msgs[i][1] = 0)
    /\ (k.run /\ ~k'.run) => (act'.op = "tick" /\ k.sense + act'.dt > SensePeriod /\ \A i \in DOMAIN act'.msgs : act'.msgs[i][1] # 0)
    (* parameters pushed by the Profiler are never requested, and only lost together with the connection *)
    /\ \A p \in P : cfg.pr[p].proto => \A j \in DOMAIN out'.log : (out'.log[j][1] = 2 /\ out'.log[j][3] = p) => (Len(bs) = 1 /\ ~k'.run)
    (* whatever the Profiler reports or the user sets is what everybody sees *)
    /\ act'.op = "set" => \A l \in DOMAIN cfg.party : (cfg.pr[act'.p].proto /\ act'.p \in ToSet(cfg.party[l])) =>
            \E j \in DOMAIN out'.log : out'.log[j] = <<1, l, act'.p, act'.v>>
=============================================================================
