---- MODULE Tuner ----
(***************************************************************************************************************************)
(* The tuner: what is shown on the screen and on the LEDs while tuner mode is on.                                           *)
(*                                                                                                                         *)
(* The device reports tuner mode, the note and the deviance [0..16383, 8192 is in tune]. In tuner mode the tuner screen is  *)
(* shown: the name of the note, and a marker at a position proportional to the deviance (zoomed around the middle), colored *)
(* by whether the deviance is inside the calibrated range. With the strobe, the LEDs of the switches show a virtual         *)
(* highlight turning with a speed proportional to the deviance, updated at a limited rate.                                  *)
(*                                                                                                                         *)
(* cfg: b: bounds <<x, y, w, h>> dh, dw: size of the marker, zoom: percent, lo, hi: calibration, names: of the 12 notes,    *)
(*      cin, cout: colors, hn, hd: display shows note / deviance, tpr: actions keep working in tuner mode, fb: feedback,    *)
(*      np: pixels, sw: switches [px, k: 0 no action, 1 action with fixed look, col, bri: percent, ord: strobe order],       *)
(*      st: strobe [on, col, dim: percent, speed: size of one turn, w: tenths, fps, rev, own: not part of the tuner display]                                    *)
(* D: md: tuner mode (-1 unknown), init: tuner screen has been shown before, note, dev: shown last, mx, mc: marker,          *)
(*    tx, tc: note label, sd: deviance known to the strobe, sp: position in the turn, el: time since the last LED update,    *)
(*    drawn: level of each LED as drawn by the strobe (-1: something else has been drawn), leds, down, con, pb (push/release) *)
(***************************************************************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSetsExt, FiniteSets, TLC
VARIABLES cfg, D, act, out
vars == <<cfg, D, act, out>>
View == <<cfg, D>>

White == <<255, 255, 255>>
Sws == [s \in DOMAIN cfg.sw |-> s]
Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b
Trunc(a, b) == IF a < 0 THEN -((-a) \div b) ELSE a \div b

(* ------------------------------------------------------------------------ screen *)
Mid == cfg.b[1] * 2 + cfg.b[3] - cfg.dw
Scaled(v) == IF cfg.zoom = 100 THEN v ELSE Max2(-8192, Min2(Trunc((v - 8192) * cfg.zoom, 100), 8192)) + 8192
MarkerX(v) == cfg.b[1] + ((cfg.b[3] - cfg.dw) * Scaled(v)) \div 16384
InTune(v) == v >= cfg.lo /\ v <= cfg.hi
Color(v) == IF InTune(v) THEN cfg.cin ELSE cfg.cout
ShowNote(S, v) == IF ~S.init \/ ~cfg.hn THEN S ELSE [S EXCEPT !.note = v, !.tx = cfg.names[(v % 12) + 1]]
ShowDev(S, v) == IF ~S.init \/ ~cfg.hd THEN S
                 ELSE [S EXCEPT !.dev = v, !.mx = MarkerX(v), !.mc = Color(v), !.tc = IF cfg.hn THEN Color(v) ELSE @]

(* ------------------------------------------------------------------------ LEDs *)
Paint(S, s, f(_)) == [S EXCEPT !.leds = [x \in DOMAIN @ |-> IF (x - 1) \in ToSet(cfg.sw[s].px) THEN [q \in 1..3 |-> f(q)] ELSE @[x]], !.drawn[s] = -1]
Fixed(S, s) == IF cfg.sw[s].k = 0 THEN S ELSE Paint(S, s, LAMBDA q : (cfg.sw[s].col[q] * cfg.sw[s].bri) \div 100)
Dark(S) == FoldLeft(LAMBDA T, s : Paint(T, s, LAMBDA q : 0), S, Sws)

(* the strobe: switches in order of rotation (LEDs are told apart by their order number, then by their position) *)
Round == SortSeq(Sws, LAMBDA x, y : cfg.sw[x].ord < cfg.sw[y].ord \/ (cfg.sw[x].ord = cfg.sw[y].ord /\ x < y))
N == Len(cfg.sw)
Interval == (1000 * N) \div cfg.st.fps
Strobe == cfg.st.on /\ N > 1
(* brightness [0..16] of a LED at position p [0..full] of the turn: full at the highlight, falling linearly to zero over the width on both sides *)
Level(p, full) ==
    LET wf == cfg.st.w * full            \* width in units of full / 10
        pp == 10 * p
    IN IF pp <= wf THEN (16 * (wf - pp)) \div wf
       ELSE IF pp >= 10 * full - wf THEN (16 * (pp - 10 * full + wf)) \div wf
       ELSE 0
Turn(S) ==
    LET d0 == IF cfg.st.rev THEN 8191 - S.sd ELSE S.sd - 8191
        th == 100 * Interval
        d == Max2(-th, Min2(d0, th))
        sp == (S.sp - d * S.el) % cfg.st.speed
        full == cfg.st.speed * N
        pos(k) == LET p == sp * N + k * cfg.st.speed IN IF p > full THEN p - full ELSE p
        lev == [k \in 1..N |-> Level(pos(k - 1), full)]
        draw(T, k) == LET s == Round[k] l == lev[k] IN
                      IF T.drawn[s] = l THEN T
                      ELSE [Paint(T, s, LAMBDA q : (cfg.st.col[q] * l * l * cfg.st.dim) \div 25600) EXCEPT !.drawn[s] = l]
    IN FoldLeft(draw, [S EXCEPT !.sp = sp, !.el = 0], [k \in 1..N |-> k])
StrobeDev(S, v) == LET S1 == [S EXCEPT !.sd = v] IN IF Strobe /\ S.md = 1 /\ S.el > Interval THEN Turn(S1) ELSE S1

(* ------------------------------------------------------------------------ reports and user *)
Reset(S) == FoldLeft(Fixed, IF cfg.st.on /\ ~cfg.st.own THEN Dark(S) ELSE S, Sws)
Mode(S, v) ==
    LET S1 == [S EXCEPT !.md = v]
        On == [S1 EXCEPT !.init = TRUE, !.el = IF S.md = 1 THEN @ ELSE 0, !.drawn = [s \in DOMAIN @ |-> -1]]
    IN IF v = 1 THEN (IF cfg.tpr THEN On ELSE Dark(On)) ELSE Reset([S1 EXCEPT !.pb = FALSE, !.el = 0])
Report(S, m) ==
    CASE m[1] = "mode" -> Mode(S, m[2])
      [] m[1] = "note" -> ShowNote(S, m[2])
      [] m[1] = "dev" -> ShowDev(StrobeDev(S, m[2]), m[2])

Push(S, s) == IF cfg.sw[s].k = 0 THEN S ELSE [S EXCEPT !.sent = Append(@, <<176, s, 1>>)]
Release(S, s) == IF cfg.sw[s].k = 0 THEN S ELSE [S EXCEPT !.sent = Append(@, <<176, s, 0>>)]
Flip(S, s) ==
    LET on == S.md = 1
        S1 == [S EXCEPT !.down[s] = ~@, !.con[s] = on /\ ~cfg.tpr /\ (~S.down[s] \/ @)]
        down == S1.down[s]
        off(T) == LET T1 == [T EXCEPT !.pb = FALSE, !.sent = Append(@, <<176, 31, 0>>)] IN IF cfg.fb THEN Mode(T1, 0) ELSE T1
        S2 == IF ~on THEN S1 ELSE IF down THEN [S1 EXCEPT !.pb = TRUE] ELSE IF S.pb THEN off(S1) ELSE S1
        pass == IF on THEN cfg.tpr /\ (down \/ S.pb) ELSE down \/ ~S.con[s]
    IN IF ~pass THEN S2 ELSE IF down THEN Push(S2, s) ELSE Release(S2, s)

Obs(S) == [exc |-> "", sent |-> S.sent, leds |-> TLCEval(S.leds), scr |-> IF S.md = 1 THEN 1 ELSE 0,
           note |-> IF S.md = 1 /\ cfg.hn THEN <<S.tx, S.tc>> ELSE <<>>,
           bar |-> IF S.md = 1 /\ cfg.hd THEN <<<<Mid \div 2, cfg.b[2] + cfg.b[4] - cfg.dh, cfg.dw, cfg.dh, White>>, <<S.mx, cfg.b[2] + cfg.b[4] - cfg.dh, cfg.dw, cfg.dh, S.mc>>>> ELSE <<>>]

Step(S0, a) ==
    LET S1 == [S0 EXCEPT !.el = IF Strobe /\ S0.md = 1 THEN @ + a.dt ELSE 0]
    IN FoldLeft(Report, FoldLeft(LAMBDA T, s : IF s \in ToSet(a.btn) THEN Flip(T, s) ELSE T, S1, Sws), a.msgs)

InitWith(c) ==
    /\ cfg = c
    /\ LET S0 == [md |-> -1, init |-> FALSE, note |-> -1, dev |-> 8192, mx |-> Mid \div 2, mc |-> c.cin, tx |-> "", tc |-> White, sd |-> 8192, sp |-> 0, el |-> 0,
                  drawn |-> [s \in DOMAIN c.sw |-> -1], down |-> [s \in DOMAIN c.sw |-> FALSE], con |-> [s \in DOMAIN c.sw |-> FALSE], pb |-> FALSE,
                  leds |-> [x \in 1..c.np |-> IF \E s \in DOMAIN c.sw : (x - 1) \in ToSet(c.sw[s].px) THEN <<127, 127, 127>> ELSE <<0, 0, 0>>], sent |-> <<>>]
       IN D = FoldLeft(Fixed, S0, Sws) /\ out = Obs(D)
    /\ act = [op |-> "init"]
Do(a) == /\ act' = a
         /\ LET S == Step(D, a) IN D' = TLCEval([S EXCEPT !.sent = <<>>]) /\ out' = TLCEval(Obs(S))
         /\ UNCHANGED cfg

-----------------------------------------------------------------------------
(* The marker never leaves the bounds, is in the middle when perfectly in tune, and left/right of it when too low/high *)
Marker == /\ D.mx >= cfg.b[1] /\ D.mx + cfg.dw <= cfg.b[1] + cfg.b[3]
          /\ (D.dev = 8192) => D.mx = Mid \div 2
          /\ (D.dev < 8192) => 2 * D.mx <= Mid
          /\ (D.dev > 8192) => 2 * D.mx >= Mid - 1
          /\ cfg.hd => (D.mc = Color(D.dev) \/ D.dev = 8192)
(* The strobe stays within its turn; in tuner mode with a dark background, all LEDs show what the strobe has drawn or nothing *)
Turning == /\ D.sp \in 0..cfg.st.speed
           /\ D.md # 1 => D.el = 0
           /\ (D.md = 1 /\ ~cfg.tpr) => \A s \in DOMAIN cfg.sw : \A x \in ToSet(cfg.sw[s].px) :
                 D.leds[x + 1] = IF D.drawn[s] = -1 THEN <<0, 0, 0>> ELSE [q \in 1..3 |-> (cfg.st.col[q] * D.drawn[s] * D.drawn[s] * cfg.st.dim) \div 25600]
(* Outside of tuner mode all actions show their own look *)
Restored == D.md # 1 => \A s \in DOMAIN cfg.sw : cfg.sw[s].k = 1 => \A x \in ToSet(cfg.sw[s].px) : D.leds[x + 1] = [q \in 1..3 |-> (cfg.sw[s].col[q] * cfg.sw[s].bri) \div 100]
Safety == Marker /\ Turning /\ Restored
(* The strobe stands still when in tune, is updated at a limited rate, and nothing but switches sends anything *)
HasDev == \E i \in DOMAIN act'.msgs : act'.msgs[i][1] = "dev"
StepOK == /\ act'.btn = <<>> => out'.sent = <<>>
          /\ (D'.sp # D.sp) => (D.md = 1 /\ HasDev /\ D.el + act'.dt > Interval)
          /\ (\A i \in DOMAIN act'.msgs : act'.msgs[i] = <<"dev", 8191>>) => D'.sp = D.sp
          /\ (cfg.st.on /\ D.md = 1 /\ D'.md = 1 /\ D'.leds # D.leds) => (HasDev \/ ~cfg.tpr)
=============================================================================
