----------------------------- MODULE Requests -----------------------------
(* Requesting parameters from the device (no bidirectional protocol): parties ask in every update cycle, answers are      *)
(* CC messages.                                                                                                            *)
EXTENDS RequestsCore
VARIABLES act, out

vars == <<cfg, val, reqs, last, lis, cl, upd, act, out>>
View == [c |-> cfg, x |-> CoreView]

InitWith(c) ==
    /\ CoreInit(c)
    /\ out = [exc |-> "", sent |-> <<>>, log |-> <<>>, val |-> [p \in 1..Len(c.pr) |-> -1]]
    /\ act = [op |-> "init"]

Commit(S) == CommitCore(S) /\ out' = [exc |-> "", sent |-> S.sent, log |-> S.log, val |-> S.val]

Tick(dt, msgs) ==
    /\ LET S == Received(dt, msgs) IN Commit(IF CycleDue(dt) THEN Cycle(S) ELSE S)
    /\ Clocks(dt)
    /\ UNCHANGED cfg

(* A party (0: nobody in particular) asks for a parameter out of turn *)
AskNow(l, p) == Commit(Ask(Work, p, l)) /\ UNCHANGED <<cfg, cl, upd>>

Do(a) ==
    /\ act' = a
    /\ CASE a.op = "tick" -> Tick(a.dt, a.msgs)
         [] a.op = "ask"  -> AskNow(a.l, a.p)

-----------------------------------------------------------------------------
Safety == CoreSafety
(* A request is sent only if none is outstanding, a dependent one only together with a change of what it depends on *)
Waiting(rs) == {rs[i].p : i \in DOMAIN rs}
StepOK ==
    LET told == {out'.log[k][3] : k \in DOMAIN out'.log} IN
    /\ \A k \in DOMAIN out'.sent : LET p == out'.sent[k][1] IN
         /\ ~Perm(p)
         /\ (p \in Waiting(reqs) => (act'.op = "tick" /\ (cl' = 0 \/ \E m \in ToSet(act'.msgs) : m[1] = cfg.pr[p].cc)))
         /\ (cfg.pr[p].dep # 0 => (last'[p] # last[p] \/ (act'.op = "tick" /\ Len(act'.msgs) > 1)))
    (* a party hears of an answer only if it was waiting or asked meanwhile, exactly once per answer *)
    /\ (act'.op = "tick" /\ Len(act'.msgs) = 1) => \A i, j \in DOMAIN out'.log : (i # j /\ out'.log[i][1] = 1) => out'.log[i] # out'.log[j]
    /\ \A k \in DOMAIN out'.log : out'.log[k][1] = 2 => \E i \in DOMAIN reqs : reqs[i].p = out'.log[k][3] /\ reqs[i].age + act'.dt > cfg.life
    (* after a cycle, everything in use is being requested (or was answered) *)
    /\ (act'.op = "tick" /\ upd' = 0 /\ upd + act'.dt > cfg.interval) =>
            \A l \in DOMAIN cfg.party : \A p \in ToSet(cfg.party[l]) : ~Perm(p) => (IF cfg.pr[p].dep = 0 THEN p ELSE cfg.pr[p].dep) \in Waiting(reqs')
=============================================================================
