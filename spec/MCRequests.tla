---- MODULE MCRequests ----
EXTENDS Requests
CONSTANTS Sel, Dts, AskL
R(c, n, d) == [cc |-> c, nreq |-> n, dep |-> d]
C(pr, party, nest) == [pr |-> pr, party |-> party, nest |-> nest, life |-> 400, interval |-> 200]
All4 == << C(<<R(1, 1, 0)>>, <<<<1>>, <<1>>>>, <<0, 0>>),
           C(<<R(1, 1, 0), R(1, 2, 0)>>, <<<<1>>, <<2, 1>>>>, <<2, 1>>),              \* two parameters answered by the same message, nested asks
           C(<<R(1, 1, 0), R(2, 1, 1)>>, <<<<2>>, <<2>>>>, <<0, 0>>),                 \* dependency with two parties
           C(<<R(1, 1, 0), R(2, 1, 1), R(3, 0, 0)>>, <<<<2, 3>>, <<1>>>>, <<3, 2>>),
           C(<<R(1, 1, 0), R(2, 1, 0)>>, <<<<1>>, <<2>>>>, <<2, 1>>) >>
Init == InitWith(All4[Sel])
Ccs == {cfg.pr[p].cc : p \in P}
Next == \/ \E dt \in Dts : \E m \in {<<>>} \cup {<<<<c, v>>>> : c \in Ccs, v \in {0, 5}} : Do([op |-> "tick", dt |-> dt, msgs |-> m])
        \/ \E c \in Ccs : Do([op |-> "tick", dt |-> 0, msgs |-> <<<<c, 5>>, <<c, 0>>, <<9, 1>>>>])
        \/ \E l \in AskL, p \in P : Do([op |-> "ask", l |-> l, p |-> p])
Bound == \A i \in DOMAIN reqs : reqs[i].age <= 700
====
