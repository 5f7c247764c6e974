---- MODULE MCPushButton ----
EXTENDS PushButton
Modes == {"ENABLE", "DISABLE", "LATCH", "MOMENTARY", "MOMENTARY_INVERSE", "HOLD_MOMENTARY", "ONE_SHOT", "NO_STATE_CHANGE", "DEFAULT"}
Configs == {[b |-> <<[mode |-> m, hold |-> h]>>, click |-> c] : m \in Modes, h \in {600, 300}, c \in {0, 1}}
     \cup {[b |-> <<[mode |-> m, hold |-> 600], [mode |-> k, hold |-> 300]>>, click |-> 0] : m \in {"LATCH", "HOLD_MOMENTARY"}, k \in {"MOMENTARY", "HOLD_MOMENTARY", "ONE_SHOT"}}
Init == \E c \in Configs : InitWith(c)
Next == \/ \E dt \in {0, 300, 301, 601} : \E d \in {0, 1} : Do([op |-> "tick", dt |-> dt, down |-> d])
        \/ \E i \in B, s \in {0, 1} : Do([op |-> "feedback", i |-> i, s |-> s])
        \/ \E i \in B : Do([op |-> "reset", i |-> i])
        \/ \E i \in B, s \in {0, 1} : Do([op |-> "set", i |-> i, s |-> s])
Bound == (\A i \in B : per[i] <= 602 \/ per[i] = 1000) /\ held <= 602
====
