---- MODULE MCLoop ----
EXTENDS Loop
CONSTANTS MaxMsgs, Bursts
Configs == [interval : {200}, burst : Bursts, nupd : {0, 1, 2}, clear : {0, 1}, uptime : {1000}]
Init == \E c \in Configs : InitWith(c)
NoInj == [u \in 1..cfg.nupd |-> <<>>]
Msgs(k) == [i \in 1..k |-> Len(arr) + i]
Next == \/ \E k \in {1, 4} : Len(arr) + k <= MaxMsgs /\ Do([op |-> "arrive", ms |-> Msgs(k)])
        \/ (~running /\ Do([op |-> "startup"]))
        \/ (running /\ \E dt \in {0, 100, 101, 201} :
                \/ Do([op |-> "tick", dt |-> dt, inj |-> NoInj])
                \/ /\ cfg.nupd > 0 /\ Len(arr) + 2 <= MaxMsgs
                   /\ \E u \in 1..cfg.nupd : age + dt > cfg.interval /\ Do([op |-> "tick", dt |-> dt, inj |-> [NoInj EXCEPT ![u] = Msgs(2)]]))
(* time is only relevant relative to the interval *)
Bound == age <= 202 \/ age = cfg.uptime
====
