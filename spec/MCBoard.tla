---- MODULE MCBoard ----
EXTENDS Board
CONSTANTS Sel, Dts
P(i, o) == [inc |-> i, outc |-> o]
M(k, n, c) == [k |-> k, num |-> n, c |-> c]
Sw(n, a) == [n |-> n, acts |-> a]
Red == <<255, 0, 0>> Gr == <<0, 255, 0>> Gray == <<100, 100, 100>>
C(d, i, r, u, x, b) == [dev |-> d, inp |-> i, routes |-> r, usb |-> u, din |-> x, bridge |-> b, clear |-> TRUE, pre |-> <<<<>>, <<>>>>, fail |-> FALSE, boot |-> b]
One(n, k) == Sw(n, <<M("msg", k, IF k % 2 = 0 THEN Red ELSE Gr), M("msg", k + 50, Gray)>>)
Full == <<<<1, 0>>, <<0, 1>>, <<2, 0>>, <<0, 2>>, <<1, 2>>, <<2, 1>>>>
All == << C("10", <<One("1", 1), One("2", 2), One("3", 3), One("4", 4), One("Up", 5)>>, <<<<1, 0>>, <<0, 1>>>>, P(-1, 0), P(-1, 0), TRUE),
          C("10", <<One("A", 1), One("B", 2), One("C", 3), One("D", 4), One("Down", 5)>>, <<<<2, 0>>, <<0, 2>>>>, P(-1, 0), P(3, 7), FALSE),
          C("10", <<[n |-> "Wheel", num |-> 9], Sw("WhlButton", <<M("cc", 8, Red)>>), Sw("ExpSw1", <<M("cc", 7, Red)>>), [n |-> "Exp2", num |-> 6]>>, <<<<1, 0>>, <<0, 1>>, <<0, 2>>>>, P(2, 9), P(-1, 0), TRUE),
          C("mini", <<One("1", 1), One("2", 2), One("3", 3), One("A", 4), One("B", 5), One("C", 6)>>, Full, P(-1, 0), P(-1, 15), FALSE),
          C("nano", <<One("1", 1), One("2", 2), One("A", 3), Sw("B", <<M("cc", 5, Red), M("err", 1, Gray)>>)>>, <<<<1, 0>>, <<0, 1>>, <<1, 2>>>>, P(-1, 0), P(-1, 15), TRUE),
          C("nano", <<Sw("2", <<M("err", 1, Gray)>>), One("1", 4), Sw("A", <<M("cc", 3, Gr)>>)>>, <<<<2, 1>>, <<2, 0>>, <<0, 1>>>>, P(0, 4), P(1, 5), FALSE) >>
Init == InitWith(All[Sel])
T(p, a, w, u, d) == Do([op |-> "tick", dt |-> 42, pins |-> p, adc |-> a, quad |-> w, usb |-> u, din |-> d])
Gpios == {Gpio(i) : i \in {j \in DOMAIN cfg.inp : ~Pedal(j) /\ ~Wheel(j)}}
HasUsb == \E r \in Rts : Src(r) = 1
HasDin == \E r \in Rts : Src(r) = 2
Ms == {<<"cc", 2, 119, 5>>, <<"cc", 3, 119, 6>>, <<"no", 1, 119, 6>>, <<"sx", 0, 1, 2>>, <<"pc", 0, 4, 0>>}
Next == \/ \E g \in Gpios : T(<<g>>, adc, quad, <<>>, <<>>)
        \/ HasUsb /\ Cardinality(low) = 0 /\ \E m \in Ms : T(<<>>, adc, quad, <<m>>, <<>>)
        \/ HasDin /\ Cardinality(low) = 0 /\ \E m \in Ms : T(<<>>, adc, quad, <<>>, <<m>>)
        \/ HasUsb /\ HasDin /\ low = {} /\ q = <<<<>>, <<>>>> /\ T(<<>>, adc, quad, <<<<"cc", 2, 119, 7>>, <<"sx", 0, 1, 2>>>>, <<<<"cc", 3, 119, 8>>, <<"pc", 1, 4, 0>>>>)
        \/ (\E i \in DOMAIN cfg.inp : Wheel(i)) /\ low = {} /\ \E w \in {0, 1, 2} : T(<<>>, adc, w, <<>>, <<>>)
        \/ (\E i \in DOMAIN cfg.inp : Pedal(i)) /\ low = {} /\ \E x \in {0, 40000, 65535} : T(<<>>, <<x, x>>, quad, <<>>, <<>>)
====
