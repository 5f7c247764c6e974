---- MODULE MCSwitch ----
EXTENDS Switch
CONSTANTS Hold, Two, NOvr
Ovrs == {<<>>} \cup {<<<<0, 0>>, <<1, 1>>, <<0, 1>>, <<1, 0>>>>[k] : k \in 1..NOvr}
One(h, rep) == [acts |-> <<1, 2>>, hold |-> h, repeat |-> rep, interval |-> 600, nest |-> 0]
NoHoldCfgs == {[sw |-> <<[acts |-> <<1, 2, 3>>, hold |-> <<>>, repeat |-> 0, interval |-> 600, nest |-> k]>>, dis |-> d, eff |-> e] :
                k \in {0, 1, 2}, d \in {<<>>, <<2>>}, e \in {<<0, 0>>, <<1, 2>>, <<2, 1>>, <<1, 1>>}}
HoldCfgs == {[sw |-> <<[acts |-> as, hold |-> <<4, 5>>, repeat |-> r, interval |-> 600, nest |-> k]>>, dis |-> d, eff |-> e] :
                as \in {<<1, 2>>, <<>>}, r \in {0, 1}, k \in {0}, d \in {<<>>, <<5>>}, e \in {<<0, 0>>, <<4, 2>>, <<4, 5>>, <<1, 4>>}}
TwoCfgs == IF Hold
           THEN {[sw |-> <<[acts |-> <<1, 2>>, hold |-> <<3>>, repeat |-> r, interval |-> 600, nest |-> 0],
                           [acts |-> <<4>>, hold |-> h, repeat |-> 0, interval |-> 200, nest |-> 0]>>, dis |-> <<>>, eff |-> <<0, 0>>] : r \in {0, 1}, h \in {<<>>, <<5>>}}
           ELSE {[sw |-> <<[acts |-> <<1, 2>>, hold |-> <<>>, repeat |-> 0, interval |-> 600, nest |-> 0],
                           [acts |-> <<3>>, hold |-> <<>>, repeat |-> 0, interval |-> 600, nest |-> 1],
                           [acts |-> <<4, 5>>, hold |-> <<>>, repeat |-> 0, interval |-> 600, nest |-> 2]>>, dis |-> <<>>, eff |-> e] : e \in {<<0, 0>>, <<1, 4>>}}
Configs == IF Two THEN TwoCfgs ELSE IF Hold THEN HoldCfgs ELSE NoHoldCfgs
Init == \E c \in Configs : InitWith(c)
Dts == IF Two THEN {0, 150, 601} ELSE IF Hold THEN {0, 300, 301, 601} ELSE {0, 601}
All == UNION {Of(i) : i \in 1..N}
Next == \/ (\E dt \in Dts : \E ds \in [1..N -> {0, 1}] : Do([op |-> "tick", dt |-> dt, downs |-> ds]))
        \/ (~Two /\ \E a \in All : \E on \in {0, 1} : (on = 1) = (a \in dis) /\ Do([op |-> "enable", a |-> a, on |-> on]))
        \/ (\E i \in 1..N : \E o \in Ovrs : o # ovr[i] /\ Do([op |-> "override", sw |-> i, o |-> o]))
Bound == \A i \in 1..N : per[i] <= 602
====
