---- MODULE MCInputs ----
EXTENDS Inputs
CONSTANTS Sel
B0 == <<0, 0, 0>> C1 == <<200, 200, 200>>
PotI(p, mx, sw, rt, cl, win, mr, lb, cv) == [k |-> "pot", p |-> p, max |-> mx, sw |-> sw, rate |-> rt, en |-> 0, cal |-> cl, win |-> win, tf |-> 0, minraw |-> mr, lab |-> lb, tmo |-> 300, conv |-> cv]
EncI(p, mn, mx, num, den, ac, ca, lb, rs) == [k |-> "enc", p |-> p, min |-> mn, max |-> mx, num |-> num, den |-> den, acc |-> ac, can |-> ca, en |-> 0, lab |-> lb, tmo |-> 300, blink |-> 100, bcol |-> C1, rst |-> rs, conv |-> ""]
P(n, a) == [name |-> n, sys |-> FALSE, adr |-> a]
L(p) == [p |-> p, conv |-> "", def |-> "def", t |-> "x", c |-> <<>>, b |-> B0]
C(fb, pr, lb, in, nb, nf) == [interval |-> 200, fb |-> fb, btn |-> nb, first |-> TRUE, flag |-> nf, pr |-> pr, lab |-> lb, inp |-> in]
KP(k, n, p, a) == [k |-> k, name |-> n, sys |-> TRUE, adr |-> 0, pre |-> <<240, 0, 32, 51, 2, 127, 1, 0, p, a>>]
KRig == [k |-> 25, name |-> "Rig ID", sys |-> FALSE, adr |-> 0, pre |-> <<>>]
All == << \* 1, 2: pedals
          C(FALSE, <<P("A", 10)>>, <<>>, <<PotI(1, 127, 16384, 41, FALSE, 0, 1024, 0, "")>>, 0, 0),
          C(FALSE, <<P("A", 10)>>, <<>>, <<[PotI(1, 127, 8192, 41, TRUE, 16384, 1024, 0, "") EXCEPT !.en = 1]>>, 0, 1),
          \* 3: direct encoders
          C(FALSE, <<P("A", 10)>>, <<>>, <<EncI(1, 0, 3, 1, 1, 0, 0, 0, 0)>>, 0, 0),
          C(TRUE, <<P("A", 10)>>, <<>>, <<EncI(1, 0, 5, 1, 2, 0, 0, 0, 0), [EncI(1, 1, 3, 2, 1, 0, 0, 0, 0) EXCEPT !.en = 1]>>, 0, 1),
          \* 5: preselection
          C(FALSE, <<P("A", 10), P("R", 11)>>, <<L(0)>>, <<EncI(1, 0, 2, 1, 1, 1, 2, 1, 2)>>, 2, 0),
          C(TRUE, <<P("A", 10)>>, <<>>, <<EncI(1, 0, 3, 1, 1, 1, 0, 0, 0), EncI(1, 0, 3, 1, 1, 2, 1, 0, 0)>>, 2, 0),
          \* 7: previews
          C(TRUE, <<P("A", 10), P("R", 11)>>, <<L(1)>>, <<EncI(1, 0, 3, 1, 1, 0, 0, 1, 0), PotI(2, 127, 32768, 41, FALSE, 0, 1024, 1, "v")>>, 0, 0),
          C(FALSE, <<P("A", 10), P("R", 11)>>, <<L(2)>>, <<EncI(1, 0, 1, 1, 1, 1, 0, 1, 0), EncI(2, 0, 1, 1, 1, 0, 0, 1, 0)>>, 1, 0),
          \* 9, 10: ready-made encoders, pedals and displays (k as in harness/kemper.py)
          C(FALSE, <<KRig, KP(37, "Gain", 10, 4)>>, <<L(0)>>, <<[EncI(2, 0, 16383, 16000, 1, 1, 0, 1, 1) EXCEPT !.conv = "@gain", !.blink = 400] @@ [fac |-> <<"amp", "AMP_GAIN">>]>>, 1, 0),
          C(TRUE, <<KRig, KP(35, "BPM", 4, 0), KP(34, "RigTrans", 4, 4)>>, <<[L(2) EXCEPT !.conv = "@bpm", !.def = ""]>>,
            <<[EncI(3, 28, 100, 1, 1, 0, 0, 1, 0) EXCEPT !.conv = "@transpose", !.blink = 400] @@ [fac |-> <<"rig_transpose", "ENCODER_RIG_TRANSPOSE">>]>>, 0, 0) >>
Small == Sel = 9 \/ Cardinality({j \in Ins : ~Pot(j)}) > 1
Init == InitWith(All[Sel])
T(dt, r, b, m, lo, f) == Do([op |-> "tick", dt |-> dt, raw |-> r, btn |-> b, msgs |-> m, lost |-> lo, flip |-> f])
Raws == IF cfg.lab = <<>> THEN {0, 16384, 32768, 49152, 65535} ELSE {0, 30000, 65535}
Free1 == \A i \in Ins : Pot(i) \/ TRUE
Next == \/ \E dt \in (IF cfg.lab = <<>> THEN {42, 201} ELSE {201}) : T(dt, <<>>, <<>>, <<>>, FALSE, <<>>)
        \/ (cfg.lab # <<>> /\ T(301, <<>>, <<>>, <<>>, FALSE, <<>>))
        \/ \E i \in Ins : \E dt \in (IF cfg.lab = <<>> THEN {0, 42} ELSE {0, 201}) : Pot(i) /\ \E r \in Raws : T(dt, <<<<i, r>>>>, <<>>, <<>>, FALSE, <<>>)
        \/ \E i \in Ins : ~Pot(i) /\ \E r \in (IF cfg.btn = 0 THEN {-2, -1, 1} ELSE {-1, 1}) : I[i].pos + r \in (IF cfg.lab = <<>> /\ cfg.btn = 0 THEN -3..3 ELSE IF Small THEN 0..1 ELSE -1..2) /\ T(0, <<<<i, I[i].pos + r>>>>, <<>>, <<>>, FALSE, <<>>)
        \/ \E b \in DOMAIN down : T(0, <<>>, <<b>>, <<>>, FALSE, <<>>)
        \/ \E p \in (IF Sel # 10 /\ cfg.lab # <<>> /\ cfg.btn = 0 THEN {1} ELSE Known \ {0}) : \E v \in (IF Sel = 10 THEN {64} ELSE IF cfg.lab # <<>> /\ Small THEN {1} ELSE {0, 2}) : T(0, <<>>, <<>>, <<<<p, v>>>>, FALSE, <<>>)
        \/ (Known \ {0} # {} /\ T(201, <<>>, <<>>, <<>>, TRUE, <<>>))
        \/ \E f \in DOMAIN flag : T(0, <<>>, <<>>, <<>>, FALSE, <<f>>)
====
