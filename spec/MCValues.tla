---- MODULE MCValues ----
EXTENDS Values
CONSTANTS Sel, Dts
W == <<255, 255, 255>> R == <<255, 0, 0>> G == <<0, 255, 0>>
Lb(p) == [t |-> "x", b |-> <<0, 0, 0>>, c |-> <<>>, p |-> p, def |-> "d"]
Ud(l, p, off, mx, rep, chg) == [k |-> "ud", lab |-> l, leds |-> TRUE, en |-> 0, col |-> R, p |-> p, off |-> off, max |-> mx, rep |-> rep, pre |-> "", suf |-> "%", bri |-> 100, chg |-> chg, tmo |-> 300, cv |-> ""]
Te(l, chg) == [k |-> "tempo", lab |-> l, leds |-> TRUE, en |-> 0, col |-> G, chg |-> chg, tmo |-> 300, pre |-> "", suf |-> " bpm", bri |-> 20]
Ta(l) == [k |-> "tap", lab |-> l, leds |-> TRUE, en |-> 0, col |-> W]
C(fb, nf, pr, lab, sw, ac) == [np |-> 2 * Len(sw), interval |-> 200, fb |-> fb, poll |-> FALSE, boff |-> 20, doff |-> 200, nf |-> nf, pr |-> pr, lab |-> lab, sw |-> sw, act |-> ac]
Sw(n, acts) == [px |-> <<2 * n - 2, 2 * n - 1>>, acts |-> acts]
P(n, a) == [name |-> n, sys |-> FALSE, adr |-> a]
All == << \* 1: up/down with repeat and preview
          C(TRUE, 0, <<P("A", 10)>>, <<Lb(0), Lb(1)>>, <<Sw(1, <<1>>), Sw(2, <<2>>)>>, <<Ud(1, 1, 1, 2, 400, 2), Ud(0, 1, -2, 3, 0, 2)>>),
          \* 2: no feedback, two pages on one switch
          C(FALSE, 1, <<P("A", 10)>>, <<Lb(0), Lb(0)>>, <<Sw(1, <<1, 2>>)>>, <<[Ud(1, 1, 1, 3, 150, 2) EXCEPT !.en = 1], [Ud(1, 1, -1, 2, 0, 0) EXCEPT !.bri = 0]>>),
          \* 3: tempo display and tap on pages
          C(FALSE, 1, <<>>, <<Lb(0), Lb(0)>>, <<Sw(1, <<1, 2>>)>>, <<[Te(1, 2) EXCEPT !.en = 1], Ta(1)>>),
          C(TRUE, 0, <<>>, <<Lb(0)>>, <<Sw(1, <<1>>)>>, <<Te(0, 1)>>),
          \* 5, 6: parameters which are requested
          [C(TRUE, 0, <<P("A", 10), P("B", 11)>>, <<Lb(0), Lb(2)>>, <<Sw(1, <<1>>)>>, <<Ud(1, 1, 1, 2, 400, 2)>>) EXCEPT !.poll = TRUE],
          [C(TRUE, 0, <<>>, <<Lb(0), Lb(0)>>, <<Sw(1, <<1>>)>>, <<Te(1, 2)>>) EXCEPT !.poll = TRUE] >>
Init == InitWith(All[Sel])
T(dt, b, m, lo, f) == Do([op |-> "tick", dt |-> dt, btn |-> b, msgs |-> m, lost |-> lo, flip |-> f])
Ps == ToSet(Registered)
Next == \/ \E dt \in Dts : T(dt, <<>>, <<>>, FALSE, <<>>)
        \/ \E s \in DOMAIN cfg.sw : T(0, <<s>>, <<>>, FALSE, <<>>)
        \/ \E f \in 1..cfg.nf : T(0, <<>>, <<>>, FALSE, <<f>>)
        \/ \E q \in Ps : \E v \in (CASE q = -1 -> (IF cfg.nf = 1 THEN {1} ELSE {0, 1}) [] q = -2 -> (IF cfg.nf = 1 THEN {} ELSE {1, 3}) [] q = -3 -> {7680, 7744} [] q = -4 -> (IF cfg.nf = 1 THEN {} ELSE {3}) [] OTHER -> {0, 2}) : T(0, <<>>, <<<<q, v>>>>, FALSE, <<>>)
        \/ T(201, <<>>, <<>>, TRUE, <<>>)
====
