---- MODULE MCKemper ----
EXTENDS Kemper
CONSTANTS Sel, Dts, AskL, Vals, Sets
(* catalogue numbers as in harness/kemper.py: 1 effect state A, 7 effect state DLY (not pushed), 20 rig name, 21 rig date, 22 tuner mode, 25 rig id *)
Rq(f, p, a) == <<<<240, 0, 32, 51, 2, 127, f, 0, p, a>>>>
StA == [cc |-> 1, nreq |-> 0, dep |-> 0, proto |-> TRUE, rq |-> <<>>, set |-> <<176, 17>>]
StDly == [cc |-> 7, nreq |-> 1, dep |-> 0, proto |-> FALSE, rq |-> Rq(65, 60, 3), set |-> <<176, 27>>]
Tun == [cc |-> 22, nreq |-> 0, dep |-> 0, proto |-> TRUE, rq |-> <<>>, set |-> <<176, 31>>]
Nrpn(c, p, a) == [cc |-> c, nreq |-> 1, dep |-> 0, proto |-> FALSE, rq |-> Rq(65, p, a), set |-> <<240, 0, 32, 51, 2, 127, 1, 0, p, a>>]
Str(c, a, d) == [cc |-> c, nreq |-> 1, dep |-> d, proto |-> FALSE, rq |-> Rq(67, 0, a), set |-> <<>>]
SetOnly(c, s) == [cc |-> c, nreq |-> 0, dep |-> 0, proto |-> FALSE, rq |-> <<>>, set |-> s]
C(pr, party, nest, lease, tm) == [pr |-> pr, party |-> party, nest |-> nest, life |-> 2000, interval |-> 200, lease |-> lease, tm |-> tm]
All4 == << C(<<StA>>, <<<<1>>>>, <<0>>, 5, TRUE),
           C(<<StA, StDly>>, <<<<1, 2>>, <<1>>>>, <<2, 0>>, 6, FALSE),
           C(<<Tun, StDly>>, <<<<2>>>>, <<0>>, 4, TRUE),
           C(<<>>, <<>>, <<>>, 10, FALSE),
           C(<<>>, <<>>, <<>>, 4, TRUE),
           \* ready-made parameters (numbers as in harness/kemper.py): 6 rig and main volume, 7 amp name, 8 gain, looper stop, volume pedal
           C(<<Nrpn(33, 4, 1), Nrpn(39, 127, 0)>>, <<<<1, 2>>>>, <<0>>, 30, TRUE),
           C(<<Str(21, 3, 0), Str(31, 16, 1)>>, <<<<2>>>>, <<0>>, 30, TRUE),
           C(<<Nrpn(37, 10, 4), SetOnly(84, <<240, 0, 32, 51, 2, 127, 1, 0, 125, 89>>), SetOnly(92, <<176, 7>>)>>, <<<<1>>>>, <<0>>, 30, TRUE) >>
Init == InitWith(All4[Sel])
Ccs == {cfg.pr[p].cc : p \in {q \in P : cfg.pr[q].proto \/ cfg.pr[q].nreq > 0}} \cup {0, -1}
Next == \/ \E dt \in Dts : \E m \in {<<>>, <<<<0, 0>>>>} : Do([op |-> "tick", dt |-> dt, msgs |-> m])
        \/ \E c \in Ccs : \E v \in IF c > 0 THEN Vals ELSE {1} : Do([op |-> "tick", dt |-> 0, msgs |-> <<<<c, v>>>>])
        \/ \E p \in Sets : Do([op |-> "set", p |-> p, v |-> 1])
        \/ \E l \in AskL, p \in ToSet(FlattenSeq(cfg.party)) : Do([op |-> "ask", l |-> l, p |-> p])
====
