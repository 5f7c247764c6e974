------------------------------- MODULE Inputs -------------------------------
(* Expression pedals, rotary encoders (direct or with preselection, accepted/cancelled by buttons), and the previews of the *)
(* values they set on display labels.                                                                                       *)
(* cfg: interval: update interval; fb: set values are fed back at once; btn: number of buttons; first: buttons are handled  *)
(*   before pedals and encoders; flag: number of enable switches                                                            *)
(*   pr: parameters [name, sys: SysEx (14 bit) or CC, adr, pre (optional): beginning of the message setting it]            *)
(*   lab: labels [p: parameter shown (0: none), conv: prefix of the value, def: text if unknown, t: initial text, c: fixed  *)
(*        text color (<<>>: contrast of the background), b: background]                                                     *)
(*   inp: pedals  [k "pot", p, max, sw: step width, rate: ms, en: enable switch (0: always), cal: calibrate, win: minimum   *)
(*        window, tf: transfer function (0: none), minraw, lab, tmo: preview time, conv: prefix for previews ("": percent)] *)
(*        encoders [k "enc", p, min, max, num, den: step width num/den, acc, can: buttons (0: none), en, lab, tmo, blink,   *)
(*        bcol, rst: parameter resetting the preselection (0: none), conv]                                                  *)
(* Raw pedal values 0..65535, times in ms. Unknown: -1.                                                                     *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC

VARIABLES cfg,
    val,    \* last known value per parameter
    I,      \* per input: pedals [raw, last, mn, mx, t], encoders [pos, ref: reference position, act: preselecting, v: preselected, rv: last value of reset parameter]
    flag,   \* enable switches
    down,   \* buttons
    lab,    \* labels [txt, col, ov: preview text, orig, stay, per: preview time or -1, t, bper: blink time or -1, bt, bon, bcol, cl: encoders which used it, own: the last one (0: pedal), own0: its own text]
    upd,
    act, out

vars == <<cfg, val, I, flag, down, lab, upd, act, out>>
View == [c |-> cfg, v |-> val, i |-> I, f |-> flag, d |-> down, l |-> lab, u |-> upd]
Cap(n, lim) == IF n > lim THEN lim + 1 ELSE n
Never == 1000000
Ins == DOMAIN cfg.inp
Pot(i) == cfg.inp[i].k = "pot"
MaxT(S, d) == IF S = {} THEN d ELSE CHOOSE x \in S : \A y \in S : x >= y

(* ------------------------------------------------------------------------ numbers *)
Round(n, d) ==          \* n/d rounded to the nearest integer (ties to even)
    LET q == n \div d r == n % d IN IF 2 * r < d THEN q ELSE IF 2 * r > d THEN q + 1 ELSE IF q % 2 = 0 THEN q ELSE q + 1
Trunc(n, d) == IF n >= 0 THEN n \div d ELSE -((-n) \div d)
Clamp(v, lo, hi) == IF v < lo THEN lo ELSE IF v > hi THEN hi ELSE v
Percent(v, mx) == Round(100 * v, mx)

(* Value to be sent for a pedal position *)
Transfer(f, raw) == CASE f = 1 -> raw \div 8192 [] f = 2 -> IF raw > 30000 THEN 100 ELSE 7 [] f = 3 -> 127 - raw \div 516
Quant(a, raw) ==
    IF a.tf # 0 THEN Transfer(a.tf, raw)
    ELSE IF raw < a.minraw THEN 0
    ELSE LET w == Round(raw, a.sw) * a.sw          \* (w * (max + 1)) div 65536 without overflow
             m == a.max + 1
         IN Clamp((w \div 65536) * m + (((w % 65536) \div 256) * m + (((w % 65536) % 256) * m) \div 256) \div 256, 0, a.max)
ScaleUp(x, w) == LET q == (x * 256) \div w r == (x * 256) % w IN 256 * q + (256 * r) \div w     \* x * 65536 div w

(* ------------------------------------------------------------------------ labels *)
White == <<255, 255, 255>>
Contrast(b) == IF 2126 * b[1] + 7151 * b[2] + 721 * b[3] < 1400000 THEN White ELSE <<0, 0, 0>>
Orig(l) == IF cfg.lab[l].c # <<>> THEN cfg.lab[l].c ELSE Contrast(cfg.lab[l].b)
(* Values in units: conv is a prefix, or one of the units of the ready-made encoders and displays *)
Abs(n) == IF n < 0 THEN -n ELSE n
Sign(n) == IF n < 0 THEN "-" ELSE ""
Tenth(n) == Sign(n) \o ToString(Abs(n) \div 10) \o "." \o ToString(Abs(n) % 10)
RoundS(n, d) == IF n < 0 THEN -Round(-n, d) ELSE Round(n, d)
Volume(v, offset) ==    \* tenths of dB
    IF v >= 30 THEN RoundS(24 * v + 100 * offset - 2400, 10) ELSE RoundS(-5000 - 348 * (v + 2) + 30 * offset * (v + 2), 3 * (v + 2))
Show(conv, v) ==
    CASE conv = "@gain" -> "Gain: " \o Tenth(Round(100 * v, 16383))
      [] conv = "@transpose" -> "Transpose: " \o (IF v > 64 THEN "+" ELSE "") \o ToString(v - 64)
      [] conv = "@bpm" -> ToString(Round(v, 64)) \o " bpm"
      [] conv = "@volume" -> LET t == Volume(v, 0) IN (IF t > 0 THEN "+" ELSE "") \o Tenth(t) \o "dB"
      [] conv = "@volume12" -> LET t == Volume(v, 12) IN (IF t > 0 THEN "+" ELSE "") \o Tenth(t) \o "dB"
      [] OTHER -> conv \o ToString(v)
Normal(S, l) == LET a == cfg.lab[l] IN IF S.val[a.p] = -1 THEN a.def ELSE Show(a.conv, S.val[a.p])
Refresh(S, l) == IF S.lab[l].ov # "" THEN [S EXCEPT !.lab[l].txt = S.lab[l].ov]
                 ELSE IF cfg.lab[l].p # 0 THEN [S EXCEPT !.lab[l].txt = Normal(S, l)] ELSE S
Free(S, l) ==
    LET x == S.lab[l]
        back == x.ov # "" /\ cfg.lab[l].p = 0 /\ x.txt = x.ov
    IN Refresh([S EXCEPT !.lab[l].ov = "", !.lab[l].txt = IF back THEN x.orig ELSE @], l)
Reset(S, l, now) ==
    LET S1 == [S EXCEPT !.lab[l].bper = -1, !.lab[l].stay = FALSE, !.lab[l].col = Orig(l)]
    IN IF now \/ S.lab[l].per = -1 THEN [Free(S1, l) EXCEPT !.lab[l].per = -1] ELSE [S1 EXCEPT !.lab[l].t = 0]

Cancel(S, i, now) ==
    LET S1 == [S EXCEPT !.I[i].act = FALSE, !.I[i].v = -1] IN IF cfg.inp[i].lab = 0 \/ S.lab[cfg.inp[i].lab].own # i THEN S1 ELSE Reset(S1, cfg.inp[i].lab, now)

Name(p) == cfg.pr[p].name
Preview(S, i, v) ==
    LET a == cfg.inp[i] l == a.lab
        enc == a.k = "enc"
        pre == enc /\ a.acc # 0
        text == IF a.conv # "" THEN Show(a.conv, v) ELSE (IF Name(a.p) = "" THEN "" ELSE Name(a.p) \o ": ") \o ToString(Percent(v, a.max)) \o "%"
        S1 == FoldLeft(LAMBDA T, c : IF c = i THEN T ELSE Cancel(T, c, TRUE), S, S.lab[l].cl)
        x == S1.lab[l]
        y == [x EXCEPT !.stay = pre, !.orig = IF x.ov = "" \/ x.txt # x.ov THEN x.txt ELSE x.orig, !.ov = text, !.txt = text,
                       !.per = IF a.tmo = 0 THEN -1 ELSE a.tmo, !.t = IF a.tmo = 0 THEN @ ELSE 0,
                       !.bt = IF x.bper = -1 THEN Never ELSE @,
                       !.bper = IF pre /\ a.blink # 0 THEN a.blink ELSE -1,
                       !.bcol = IF enc THEN a.bcol ELSE <<200, 200, 200>>,
                       !.own = IF enc THEN i ELSE 0, !.cl = IF enc /\ i \notin ToSet(x.cl) THEN Append(@, i) ELSE @]
    IN IF l = 0 THEN S ELSE [S1 EXCEPT !.lab[l] = y]

Blink(S, l) ==      \* periodic update
    LET x == S.lab[l]
        S1 == IF ~x.stay /\ x.per # -1 /\ x.t > x.per THEN [Free(S, l) EXCEPT !.lab[l].t = 0] ELSE S
    IN IF x.ov = "" THEN S
       ELSE IF x.bper # -1 /\ x.bt > x.bper
            THEN [S1 EXCEPT !.lab[l].bt = 0, !.lab[l].bon = ~@, !.lab[l].col = IF x.bon THEN Orig(l) ELSE x.bcol]
       ELSE S1

(* ------------------------------------------------------------------------ parameters *)
Encode(p, v) == IF "pre" \in DOMAIN cfg.pr[p] THEN cfg.pr[p].pre \o IF cfg.pr[p].sys THEN <<v \div 128, v % 128>> ELSE <<v>>
                ELSE IF cfg.pr[p].sys THEN <<240, 0, 32, 51, 2, 127, 1, 0, cfg.pr[p].adr, 0, v \div 128, v % 128>> ELSE <<176, cfg.pr[p].adr, v>>
Known == {cfg.lab[l].p : l \in DOMAIN cfg.lab} \cup {cfg.inp[i].p : i \in {j \in Ins : ~Pot(j)}}
         \cup {cfg.inp[i].rst : i \in {j \in Ins : ~Pot(j) /\ cfg.inp[j].lab # 0 /\ cfg.inp[j].acc # 0}}
Labels == [l \in DOMAIN cfg.lab |-> l]
Told(S, p) == FoldLeft(LAMBDA T, l : IF cfg.lab[l].p = p THEN Refresh(T, l) ELSE T, S, Labels)
Set(S, p, v) ==
    LET S1 == [S EXCEPT !.sent = Append(@, Encode(p, v))]
    IN IF cfg.fb THEN Told([S1 EXCEPT !.val[p] = v], p) ELSE S1
Report(S, m) == IF m[1] \in Known THEN Told([S EXCEPT !.val[m[1]] = m[2]], m[1]) ELSE S
Shows == {cfg.lab[l].p : l \in DOMAIN cfg.lab}
Lost(S) == FoldLeft(LAMBDA T, p : IF p \in Shows THEN Told([T EXCEPT !.val[p] = -1], p) ELSE T, S, [p \in DOMAIN cfg.pr |-> p])

(* ------------------------------------------------------------------------ inputs *)
PotPass(S, i) ==
    LET a == cfg.inp[i] x == S.I[i]
        mn == IF ~a.cal THEN -1 ELSE IF x.mn = -1 \/ x.raw < x.mn THEN x.raw ELSE x.mn
        mx == IF ~a.cal THEN -1 ELSE IF x.mx = -1 \/ x.raw > x.mx THEN x.raw ELSE x.mx
        S1 == [S EXCEPT !.I[i].t = 0, !.I[i].mn = mn, !.I[i].mx = mx]
        v == Quant(a, IF a.cal THEN ScaleUp(x.raw - mn, mx - mn) ELSE x.raw)
    IN IF x.t <= a.rate THEN S
       ELSE IF a.cal /\ (mx = mn \/ mx - mn < a.win) THEN S1
       ELSE IF x.last = v THEN S1
       ELSE Preview(Set([S1 EXCEPT !.I[i].last = v], a.p, v), i, v)

Accept(S, i) ==     \* v of input i is final
    LET a == cfg.inp[i]
        S1 == Set(S, a.p, S.I[i].v)
        S2 == [S1 EXCEPT !.val[a.p] = S.I[i].v]
    IN Cancel(S2, i, FALSE)

EncPass(S, i) ==
    LET a == cfg.inp[i] x == S.I[i]
        pos == Trunc(x.pos * a.num, a.den)
        ref == IF x.ref = Never THEN pos ELSE x.ref
        watch == a.lab # 0 /\ a.acc # 0 /\ a.rst # 0
        rv == IF watch THEN S.val[a.rst] ELSE -1
        S0 == [S EXCEPT !.I[i].ref = pos]
        S1 == IF watch /\ rv # x.rv /\ rv # -1 /\ x.rv # -1 THEN Cancel(S0, i, TRUE) ELSE S0
        S2 == [S1 EXCEPT !.I[i].rv = rv]
        known == S2.val[a.p] # -1
        S3 == IF known THEN S2 ELSE [S2 EXCEPT !.val[a.p] = 0]
        cur == IF S2.I[i].act THEN S2.I[i].v ELSE IF known THEN S2.val[a.p] ELSE IF a.acc # 0 THEN -1 ELSE 0
        v == Clamp(cur + (pos - ref), a.min, a.max)
        S4 == [S3 EXCEPT !.I[i].v = v]
        S5 == IF a.acc = 0 THEN Accept(S4, i) ELSE [S4 EXCEPT !.I[i].act = TRUE]
    IN IF pos = ref THEN S2
       ELSE IF v = cur THEN S3
       ELSE Preview(S5, i, v)

Inputs(S) == FoldLeft(LAMBDA T, i : IF cfg.inp[i].en # 0 /\ ~T.flag[cfg.inp[i].en] THEN T ELSE IF Pot(i) THEN PotPass(T, i) ELSE EncPass(T, i), S, [i \in Ins |-> i])

(* Buttons: accept and cancel in the order the encoders were set up; only pushes count *)
Button(S, b) ==
    LET use(T, i) == LET a == cfg.inp[i]
                         T1 == IF a.acc = b /\ T.I[i].act THEN Accept(T, i) ELSE T
                     IN IF a.can = b THEN Cancel(T1, i, TRUE) ELSE T1
    IN FoldLeft(use, S, SelectSeq([i \in Ins |-> i], LAMBDA i : ~Pot(i)))
Press(S, bs) == FoldLeft(LAMBDA T, b : IF b \in bs /\ S.down[b] THEN Button(T, b) ELSE T, S, [b \in 1..cfg.btn |-> b])
Pass(S, bs) == IF cfg.first THEN Inputs(Press(S, bs)) ELSE Press(Inputs(S), bs)

(* ------------------------------------------------------------------------ steps *)
Obs(S) == [exc |-> "", sent |-> S.sent, lab |-> [l \in DOMAIN S.lab |-> <<S.lab[l].txt, S.lab[l].col>>]]
LongestT == MaxT({cfg.inp[i].tmo : i \in Ins}, 0)
LongestB == MaxT({IF Pot(i) THEN 0 ELSE cfg.inp[i].blink : i \in Ins}, 0)
Later(x, dt) == [x EXCEPT !.t = Cap(@ + dt, LongestT), !.bt = IF @ = Never THEN @ ELSE Cap(@ + dt, LongestB)]
(* Forget what does not matter any more *)
Tidy(x) == [x EXCEPT !.t = IF x.ov = "" \/ x.stay \/ x.per = -1 THEN 0 ELSE @, !.bt = IF x.bper = -1 THEN Never ELSE @,
                     !.orig = IF x.ov = "" THEN "" ELSE @, !.bcol = IF x.bper = -1 THEN <<0, 0, 0>> ELSE @]

(* Somebody else (an action of a switch) sets the text of a label *)
Write(x, l, a) == IF "put" \notin DOMAIN a THEN x
                  ELSE FoldLeft(LAMBDA y, w : IF w[1] = l /\ cfg.lab[l].p = 0 THEN [y EXCEPT !.txt = w[2], !.own0 = w[2]] ELSE y, x, a.put)

Tick(a) ==
    LET raw(i) == {q \in DOMAIN a.raw : a.raw[q][1] = i}
        new(i) == IF raw(i) = {} THEN IF Pot(i) THEN I[i].raw ELSE I[i].pos ELSE a.raw[CHOOSE q \in raw(i) : TRUE][2]
        S0 == [val |-> val, sent |-> <<>>,
               I |-> [i \in Ins |-> IF Pot(i) THEN [I[i] EXCEPT !.t = Cap(@ + a.dt, cfg.inp[i].rate), !.raw = new(i)] ELSE [I[i] EXCEPT !.pos = new(i)]],
               flag |-> [f \in DOMAIN flag |-> IF f \in ToSet(a.flip) THEN ~flag[f] ELSE flag[f]],
               down |-> [b \in DOMAIN down |-> IF b \in ToSet(a.btn) THEN ~down[b] ELSE down[b]],
               lab |-> [l \in DOMAIN lab |-> Later(Write(lab[l], l, a), a.dt)]]
        S1 == Pass(S0, ToSet(a.btn))
        S2 == FoldLeft(LAMBDA T, m : Pass(Report(T, m), {}), S1, a.msgs)
        cyc == upd + a.dt > cfg.interval
        S3 == IF cyc THEN Pass(IF a.lost THEN Lost(S2) ELSE S2, {}) ELSE S2
        S4 == IF ~cyc THEN S3 ELSE FoldLeft(LAMBDA T, i : IF cfg.inp[i].lab = 0 THEN T ELSE Blink(T, cfg.inp[i].lab), S3, [i \in Ins |-> i])
    IN /\ val' = S4.val /\ I' = S4.I /\ flag' = S4.flag /\ down' = S4.down /\ lab' = [l \in DOMAIN lab |-> Tidy(S4.lab[l])]
       /\ upd' = IF cyc THEN 0 ELSE upd + a.dt
       /\ out' = Obs(S4)
       /\ UNCHANGED cfg

InitWith(c) ==
    /\ cfg = c
    /\ val = [p \in DOMAIN c.pr |-> -1]
    /\ I = [i \in DOMAIN c.inp |-> IF c.inp[i].k = "pot" THEN [raw |-> 0, last |-> -1, mn |-> -1, mx |-> -1, t |-> Cap(1000, c.inp[i].rate)]
                                   ELSE [pos |-> 0, ref |-> Never, act |-> FALSE, v |-> -1, rv |-> -1]]
    /\ flag = [f \in 1..c.flag |-> TRUE] /\ down = [b \in 1..c.btn |-> FALSE]
    /\ lab = [l \in DOMAIN c.lab |-> [txt |-> c.lab[l].t, col |-> IF c.lab[l].c # <<>> THEN c.lab[l].c ELSE Contrast(c.lab[l].b), ov |-> "", orig |-> "",
                 stay |-> FALSE, per |-> -1, t |-> 0, bper |-> -1, bt |-> Never, bon |-> FALSE, bcol |-> <<0, 0, 0>>, cl |-> <<>>, own |-> 0, own0 |-> c.lab[l].t]]
    /\ upd = Cap(1000, c.interval) /\ act = [op |-> "init"]
    /\ out = [exc |-> "", sent |-> <<>>, lab |-> [l \in DOMAIN lab |-> <<lab[l].txt, lab[l].col>>]]

Do(a) == act' = a /\ Tick(a)

-----------------------------------------------------------------------------
(* Pedals: the bottom gives 0, the top the maximum, monotone in between *)
Full(a) == LET s == [q \in 1..65 |-> IF q = 65 THEN 65535 ELSE (q - 1) * 1024]
           IN a.tf = 0 => /\ Quant(a, 0) = 0 /\ (65536 % a.sw = 0 => Quant(a, 65535) = a.max)
                          /\ \A q \in 1..64 : Quant(a, s[q]) <= Quant(a, s[q + 1]) /\ Quant(a, s[q]) \in 0..a.max
Ranges == \A i \in Ins : LET a == cfg.inp[i] IN IF Pot(i) THEN (act.op = "init" => Full(a)) /\ I[i].last <= (IF a.tf = 0 THEN a.max ELSE 127)
                                                ELSE I[i].act => I[i].v \in a.min..a.max /\ a.acc # 0
(* A label shows the preview while there is one, else its own content *)
Shown == \A l \in DOMAIN lab : IF lab[l].ov # "" THEN lab[l].txt \in {lab[l].ov, lab[l].own0} ELSE cfg.lab[l].p = 0 => lab[l].txt = lab[l].own0
(* A preselection is visible as long as it is open (if there is a display), and at most one is open per label *)
Visible == \A i, j \in Ins : (~Pot(i) /\ I[i].act /\ cfg.inp[i].lab # 0) =>
              /\ lab[cfg.inp[i].lab].ov # "" /\ lab[cfg.inp[i].lab].stay
              /\ (j # i /\ ~Pot(j) /\ cfg.inp[j].lab = cfg.inp[i].lab) => ~I[j].act
(* Everything which blinks or stays belongs to an open preselection *)
Quiet == \A l \in DOMAIN lab : (lab[l].stay \/ lab[l].col # Orig(l)) => \E i \in Ins : ~Pot(i) /\ cfg.inp[i].lab = l /\ I[i].act
Safety == Ranges /\ Shown /\ Visible /\ Quiet
(* Preselecting sends nothing; nothing is sent without the user *)
Pre == {i \in Ins : ~Pot(i) /\ cfg.inp[i].acc # 0}
StepOK == /\ (act'.btn = <<>> /\ \A i \in Ins : i \in Pre) => out'.sent = <<>>
          /\ (act'.btn = <<>> /\ act'.raw = <<>> /\ \A i \in Ins : ~Pot(i) /\ cfg.inp[i].en = 0 /\ I[i].ref # Never) => out'.sent = <<>>
          /\ \A i \in Ins : Pot(i) => (I'[i].last # I[i].last => I'[i].t = 0 /\ I[i].t + act'.dt > cfg.inp[i].rate)
          /\ \A i \in Pre : (I[i].act /\ ~I'[i].act) => \/ act'.btn # <<>> \/ cfg.inp[i].lab # 0
=============================================================================
