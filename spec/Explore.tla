------------------------------- MODULE Explore -------------------------------
(* Explore mode (controller/explore.py): finds out at which GPIO ports switches are connected, and which LEDs belong to them. *)
(* cfg: pins: GPIO numbers of the board; busy: pins which cannot be used as inputs; n: LEDs per switch; cols: port labels per *)
(*      row; std: started by code.py (display, LED chain and their pins included), else the controller alone                  *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC

VARIABLES cfg, ports, low, down, sel, mark, text, act, out
(* low: pins at ground; down: pins seen pushed; sel: selected switch (0-based, -1: none yet); *)
(* mark: per port 0: never pushed, 1: pushed last, 2: pushed before; text: shown LED addresses                                 *)

vars == <<cfg, ports, low, down, sel, mark, text, act, out>>
View == [c |-> cfg, l |-> low, d |-> down, s |-> sel, m |-> mark, t |-> text]

Display == {12, 13, 14, 15}
Neo == 7
White == <<255, 255, 255>> Dark == <<0, 0, 120>> Light == <<100, 100, 255>> Red == <<255, 0, 0>> Green == <<73, 110, 41>>
(* Ports in order of their names *)
Key(g) == IF g < 10 THEN g * 11 ELSE (g \div 10) * 11 + (g % 10) + 1
Free(c) == ToSet(c.pins) \ (ToSet(c.busy) \cup (IF c.std THEN Display \cup {Neo} ELSE {Neo}))
Ports(c) == TLCEval(SortSeq(SetToSeq(Free(c)), LAMBDA a, b : Key(a) < Key(b)))
N == Len(ports)
Name(g) == "GP" \o ToString(g)

Least(a, b) == IF a < b THEN a ELSE b
Rows(n) == (n + cfg.cols - 1) \div cfg.cols
(* Area of port label i (1-based): rows share the height, labels of a row its width; a frame of one pixel is left *)
Box(i) ==
    LET R == Rows(N) r == (i - 1) \div cfg.cols k == (i - 1) % cfg.cols
        C == Least(cfg.cols, N - r * cfg.cols)
        w == 240 \div C h == 200 \div R
    IN <<k * w, r * h, w, h>>
Contrast(b) == IF 2126 * b[1] + 7151 * b[2] + 721 * b[3] < 1400000 THEN White ELSE <<0, 0, 0>>
Fill(m) == CASE m = 0 -> Dark [] m = 1 -> Red [] m = 2 -> Light
Label(i, m) == LET b == Box(i) f == Fill(m) IN [t |-> Name(ports[i]), p |-> <<b[1] + b[3] \div 2, b[2] + b[4] \div 2>>, c |-> Contrast(f), f |-> f,
                                               r |-> <<b[1] + 1, b[2] + 1, b[3] - 2, b[4] - 2>>]
Leds(s) == [x \in 1..(Len(cfg.pins) * cfg.n) |->
              LET i == (x - 1) \div cfg.n
              IN IF i >= N THEN <<0, 0, 0>> ELSE IF s = -1 THEN <<127, 127, 127>> ELSE IF i = s THEN White ELSE <<0, 0, 12>>]
RECURSIVE Join(_)
Join(q) == IF Len(q) = 1 THEN Head(q) ELSE Head(q) \o ", " \o Join(Tail(q))
Report(s) == "Pixels: (" \o Join([j \in 1..cfg.n |-> ToString(s * cfg.n + j - 1)]) \o ") of " \o ToString(N * cfg.n)
Obs(s, m, t, con) == [exc |-> "", run |-> "", leds |-> TLCEval(Leds(s)), labels |-> TLCEval([i \in 1..N |-> Label(i, m[i])]),
                      pix |-> [t |-> t, p |-> <<120, 220>>, c |-> Contrast(Green), f |-> Green, r |-> <<0, 200, 240, 40>>], con |-> con]

InitWith(c) ==
    /\ cfg = c
    /\ ports = Ports(c)
    /\ low = {} /\ down = {} /\ sel = -1 /\ text = ""
    /\ mark = [i \in 1..N |-> 0]
    /\ act = [op |-> "init"]
    /\ out = Obs(-1, mark, "", <<>>)

(* A push of assigned switch i (1-based): odd ones step forward, even ones backward, both with wrap around *)
Push(S, i) ==
    LET s == S.sel + (IF i % 2 = 1 THEN 1 ELSE -1)
        t == IF s >= N THEN 0 ELSE IF s < 0 THEN N - 1 ELSE s
        r == Report(t)
    IN [S EXCEPT !.sel = t, !.text = r, !.con = Append(@, "board." \o Name(ports[i]) \o " " \o r),
                 !.mark = [k \in 1..N |-> IF k = i THEN 1 ELSE IF S.mark[k] = 1 THEN 2 ELSE S.mark[k]]]

(* a: [pins: which change level] *)
Do(a) ==
    LET g == ToSet(a.pins) l == (low \ g) \cup (g \ low)
        P == ports
        S == FoldLeft(LAMBDA T, i : IF P[i] \in l /\ P[i] \notin down THEN Push(T, i) ELSE T,
                      [sel |-> sel, text |-> text, con |-> <<>>, mark |-> mark], [i \in 1..N |-> i])
    IN
    /\ low' = l /\ down' = l \cap Free(cfg)
    /\ sel' = S.sel /\ text' = S.text /\ mark' = S.mark
    /\ out' = Obs(S.sel, S.mark, S.text, S.con)
    /\ act' = a
    /\ UNCHANGED <<cfg, ports>>
------------------------------------------------------------------------------
(* Port labels never overlap and stay on the screen above the LED display *)
Disjoint(a, b) == a[1] + a[3] <= b[1] \/ b[1] + b[3] <= a[1] \/ a[2] + a[4] <= b[2] \/ b[2] + b[4] <= a[2]
Layout == \A i \in 1..N : LET b == Box(i) IN b[1] >= 0 /\ b[2] >= 0 /\ b[1] + b[3] <= 240 /\ b[2] + b[4] <= 200 /\ \A j \in 1..(i - 1) : Disjoint(b, Box(j))
OneMark == Cardinality({i \in 1..N : mark[i] = 1}) <= 1
Selected == sel \in -1..(N - 1)
Safety == Layout /\ OneMark /\ Selected
StepOK == (down' \ down = {}) => out'.con = <<>> /\ out'.leds = Leds(sel)
=============================================================================
