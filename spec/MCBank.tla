---- MODULE MCBank ----
EXTENDS Bank
CONSTANTS Sel, Dts, Ids
L == [t |-> "x", b |-> <<0, 0, 255>>, c |-> <<>>]
Rig(rig, off, bank, boff, mode, lab) == [k |-> "rig", rig |-> rig, off |-> off, bank |-> bank, boff |-> boff, excl |-> <<>>, rbm |-> FALSE, mom |-> FALSE, mode |-> mode, txt |-> "", tcb |-> FALSE, ccb |-> FALSE,
                                         color |-> <<>>, lab |-> lab, leds |-> TRUE, en |-> 0]
Bnk(bank, boff, pre, mode, lab) == [k |-> "bank", bank |-> bank, boff |-> boff, pre |-> pre, mode |-> mode, txt |-> "", tcb |-> FALSE, ccb |-> FALSE, color |-> <<>>, lab |-> lab, leds |-> TRUE, en |-> 0]
Bch(dir, pre, maxb, mode, lab) == [k |-> "bch", dir |-> dir, pre |-> pre, maxb |-> maxb, dimp |-> "off", lbp |-> "off", dim |-> 200, lb |-> 50, lbx |-> 300, mode |-> mode, txt |-> "Bank up", tcb |-> FALSE, ccb |-> FALSE,
                                   color |-> <<>>, lab |-> lab, leds |-> TRUE, en |-> 0]
Rch(up, keep, mode, lab) == [k |-> "rch", up |-> up, keep |-> keep, mode |-> mode, txt |-> "", tcb |-> FALSE, ccb |-> FALSE, color |-> <<>>, lab |-> lab, leds |-> TRUE, en |-> 0]
Mor(btn, lab, en) == [k |-> "mor", btn |-> btn, cb |-> <<255, 0, 0>>, cm |-> <<0, 0, 255>>, txt |-> "Morph", color |-> <<>>, lab |-> lab, leds |-> TRUE, en |-> en]
S(px, acts) == [px |-> px, acts |-> acts]
N(name, id) == [name |-> name, id |-> id]
C(np, lb, nf, s, a, rn, enc, ef) == [np |-> np, interval |-> 200, bon |-> 300, boff |-> 50, doff |-> 200, lab |-> lb, nf |-> nf, sw |-> s, act |-> a, rn |-> rn, enc |-> enc, ef |-> ef]
Excl(a, x) == [a EXCEPT !.excl = x]
Rbm(a, m) == [a EXCEPT !.rbm = TRUE, !.mom = m]
En(a, e) == [a EXCEPT !.en = e]
All == << C(2, <<L>>, 0, <<S(<<0>>, <<1>>), S(<<1>>, <<2>>)>>, <<Rig(2, -1, 0, 0, 20, 1), Excl(Rig(1, -1, 2, -1, 10, 0), <<2>>)>>, <<>>, <<>>, FALSE),
          C(3, <<L, L>>, 1, <<S(<<0, 1>>, <<1>>), S(<<2>>, <<2>>)>>, <<En(Rig(1, 3, 2, 1, 20, 1), 1), Rig(0, 0, 0, 0, 20, 2)>>, <<N(TRUE, "both")>>, <<>>, FALSE),
          C(2, <<>>, 0, <<S(<<0>>, <<1>>), S(<<1>>, <<2>>)>>, <<Rbm(Rig(1, 0, 0, 0, 20, 0), FALSE), Rbm(Rig(2, 0, 2, 0, 20, 0), TRUE)>>, <<>>, <<>>, FALSE),
          \* 4, 5, 6: preselection
          C(3, <<L, L>>, 0, <<S(<<0>>, <<1>>), S(<<1>>, <<2>>), S(<<2>>, <<3>>)>>, <<Bnk(2, 0, TRUE, 20, 1), Rig(1, 0, 0, 0, 20, 2), Bnk(1, 0, TRUE, 10, 0)>>, <<N(TRUE, "both")>>, <<>>, FALSE),
          C(2, <<L>>, 1, <<S(<<0>>, <<1>>), S(<<1>>, <<2>>)>>, <<Bch(1, TRUE, 2, 20, 1), En(Rig(2, 0, 0, 0, 20, 1), 1)>>, <<>>, <<>>, FALSE),
          C(2, <<L>>, 0, <<S(<<0>>, <<1>>), S(<<1>>, <<2>>)>>, <<Bnk(2, 1, FALSE, 20, 1), Rig(1, 0, 0, 0, 20, 0)>>, <<>>, <<[num |-> 3, den |-> 2]>>, TRUE),
          \* 7, 8, 9: up/down
          C(2, <<L>>, 0, <<S(<<0>>, <<1>>), S(<<1>>, <<2>>)>>, <<Rch(TRUE, TRUE, 20, 1), Rch(FALSE, FALSE, 20, 0)>>, <<>>, <<>>, FALSE),
          C(2, <<L>>, 0, <<S(<<0>>, <<1>>), S(<<1>>, <<2>>)>>, <<Bch(1, FALSE, 0, 10, 1), Bch(-1, FALSE, 0, 20, 0)>>, <<>>, <<>>, FALSE),
          C(2, <<L>>, 0, <<S(<<0>>, <<1>>), S(<<1>>, <<2>>)>>, <<Bch(-1, TRUE, 3, 20, 1), Rch(FALSE, TRUE, 10, 0)>>, <<N(TRUE, "rig")>>, <<>>, FALSE),
          \* 10, 11: morph
          C(2, <<L>>, 0, <<S(<<0, 1>>, <<1, 2>>)>>, <<Rbm(Rig(1, 0, 0, 0, 20, 0), FALSE), Mor(FALSE, 1, -1)>>, <<>>, <<>>, FALSE),
          C(2, <<L>>, 0, <<S(<<0>>, <<1>>), S(<<1>>, <<2>>)>>, <<Mor(TRUE, 1, 0), Mor(FALSE, 0, 0)>>, <<>>, <<>>, FALSE),
          \* 12: preselection and rig up
          C(2, <<L>>, 0, <<S(<<0>>, <<1>>), S(<<1>>, <<2>>)>>, <<Bch(1, TRUE, 3, 20, 1), Rch(TRUE, FALSE, 20, 0)>>, <<>>, <<>>, FALSE),
          \* 13, 14, 15: smaller preselection models
          C(2, <<L>>, 0, <<S(<<0>>, <<1>>), S(<<1>>, <<2>>)>>, <<Bnk(2, 0, TRUE, 20, 1), Rig(1, 0, 0, 0, 20, 0)>>, <<N(TRUE, "both")>>, <<>>, FALSE),
          C(2, <<L>>, 0, <<S(<<0>>, <<1>>), S(<<1>>, <<2>>)>>, <<Bch(1, TRUE, 2, 20, 1), Rig(2, 0, 0, 0, 20, 1)>>, <<>>, <<>>, FALSE),
          C(1, <<L>>, 0, <<S(<<0>>, <<1>>)>>, <<Rig(1, 0, 0, 0, 20, 1)>>, <<N(FALSE, "bank")>>, <<[num |-> 1, den |-> 1]>>, TRUE),
          \* 16: enable flag, smaller than 2
          C(2, <<L, L>>, 1, <<S(<<0, 1>>, <<1>>)>>, <<En(Rig(1, 3, 2, 1, 20, 1), 1)>>, <<N(TRUE, "both")>>, <<>>, FALSE) >>
Init == InitWith(All[Sel])
T(dt, s, m, t, e) == Do([op |-> "tick", dt |-> dt, sw |-> s, turn |-> t, msgs |-> m, en |-> e])
HasMor == \E i \in Acts : cfg.act[i].k = "mor"
Next == \/ \E dt \in Dts : T(dt, <<>>, <<>>, 0, <<>>)
        \/ \E s \in DOMAIN cfg.sw : T(0, <<s>>, <<>>, 0, <<>>)
        \/ \E v \in Ids : T(0, <<>>, <<<<"cc", 0>>, <<"pc", v>>>>, 0, <<>>)
        \/ \E f \in 1..cfg.nf : T(0, <<>>, <<>>, 0, <<f>>)
        \/ (cfg.enc # <<>> /\ \E t \in {1, -1} : D.enc.pos + t \in 0..2 /\ T(0, <<>>, <<>>, t, <<>>))
        \/ (cfg.rn # <<>> /\ T(0, <<>>, <<<<"name", "n1">>>>, 0, <<>>))
        \/ (HasMor /\ \E v \in {0, 5000, 16383} : T(0, <<>>, <<<<"morph", v>>>>, 0, <<>>))
        \/ (HasMor /\ T(601, <<>>, <<>>, 0, <<>>))
====
