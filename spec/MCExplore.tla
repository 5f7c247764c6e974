---- MODULE MCExplore ----
EXTENDS Explore
CONSTANTS Sel, Dts
C(p, b, n, k, s) == [pins |-> p, busy |-> b, n |-> n, cols |-> k, std |-> s]
All == << C(<<1, 7, 10, 12, 13, 14, 15, 20>>, <<>>, 3, 5, TRUE),
          C(<<3, 7, 12, 13, 14, 15, 28>>, <<28>>, 3, 5, TRUE),
          C(<<0, 4, 7, 11, 12, 13, 14, 15>>, <<0, 12, 13, 14, 15>>, 2, 2, FALSE),
          C(<<7, 9, 12, 13, 14, 15, 19>>, <<12, 13, 14>>, 1, 1, FALSE) >>
Init == InitWith(All[Sel])
Next == \/ \E g \in (IF Cardinality(low) < 1 THEN ToSet(cfg.pins) \ {12, 13, 14} ELSE low) : Do([op |-> "tick", dt |-> 0, pins |-> <<g>>])
        \/ low = {} /\ \E g, h \in Free(cfg) : g # h /\ Do([op |-> "tick", dt |-> 0, pins |-> <<g, h>>])
====
