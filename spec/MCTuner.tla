---- MODULE MCTuner ----
EXTENDS Tuner
CONSTANTS Sel, Dts
G == <<0, 255, 0>> O == <<255, 125, 0>>
Names == <<"C", "Db", "D", "Eb", "E", "F", "Gb", "G", "Ab", "A", "Bb", "B">>
Sw(n, k, o) == [px |-> <<n - 1>>, k |-> k, col |-> <<0, 0, 200>>, bri |-> 50, ord |-> o]
St(on, rev) == [on |-> on, own |-> on, col |-> White, dim |-> 100, speed |-> 1000, w |-> 5, fps |-> 100, rev |-> rev]
C(zoom, tpr, fb, hn, hd, sw, st) == [b |-> <<5, 10, 205, 100>>, dh |-> 40, dw |-> 5, zoom |-> zoom, lo |-> 7842, hi |-> 8542, names |-> Names, cin |-> G, cout |-> O,
                                     hn |-> hn, hd |-> hd, tpr |-> tpr, fb |-> fb, np |-> Len(sw), sw |-> sw, st |-> st]
All == << C(240, FALSE, TRUE, FALSE, FALSE, <<Sw(1, 1, 2), Sw(2, 0, 1)>>, St(TRUE, TRUE)),
          C(240, TRUE, FALSE, FALSE, FALSE, <<Sw(1, 1, 2), Sw(2, 0, 1), Sw(3, 1, 3)>>, St(TRUE, FALSE)),
          C(100, FALSE, FALSE, TRUE, TRUE, <<Sw(1, 1, 0), Sw(2, 0, 0)>>, St(FALSE, FALSE)),
          C(1000, TRUE, TRUE, FALSE, TRUE, <<Sw(1, 1, 0)>>, St(TRUE, FALSE)),
          C(240, FALSE, TRUE, TRUE, FALSE, <<Sw(1, 1, 0)>>, St(TRUE, FALSE)) >>
Init == InitWith(All[Sel])
T(dt, b, m) == Do([op |-> "tick", dt |-> dt, btn |-> b, msgs |-> m])
Devs == IF Strobe THEN {8191, 8196, 8181} ELSE {0, 16383, 8192, 7842, 7841, 8542, 8543}
Next == \/ \E dt \in Dts : \E v \in Devs : T(dt, <<>>, <<<<"dev", v>>>>)
        \/ \E v \in {0, 1} : T(0, <<>>, <<<<"mode", v>>>>)
        \/ \E v \in {1, 24} : T(0, <<>>, <<<<"note", v>>>>)
        \/ \E s \in DOMAIN cfg.sw : T(0, <<s>>, <<>>)
====
