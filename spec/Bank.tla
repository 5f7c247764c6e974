-------------------------------- MODULE Bank --------------------------------
(* Selecting rigs and banks of the Kemper Profiler: rig select, bank select, bank up/down, rig up/down switches, the bank      *)
(* encoder, bank preselection, the morph state, and the rig name display.                                                      *)
(* cfg: np: number of LEDs; interval: update interval; bon, boff, doff: global LED brightness on/off, label dim factor (1/1000) *)
(*   lab: labels [t, b, c]: initial text, background, fixed text color (<<>>: automatic); nf: number of enable flags            *)
(*   sw: switches [px: LEDs, acts: actions]                                                                                     *)
(*   act: actions, k:                                                                                                          *)
(*     rig  [rig (0: current), off (0: none, -1: auto), bank (0: current), boff (0: none, -1: auto), excl: rigs not remembered, *)
(*           rbm: second press toggles morph, mom: momentary morph]                                                             *)
(*     bank [bank, boff, pre: preselect]    bch [dir, pre, maxb (0: all), dim, lb, lbx: brightness normal/blinking]             *)
(*     rch  [up, keep]                      mor [btn: morph button or display only, cb, cm: colors]                             *)
(*     all: mode 10: show current, 20: show target; txt ("": default), tcb/ccb: text/color computed by a callback, color <<>>,  *)
(*     lab, leds, en: 0 always, n > 0 enable flag, n < 0: enabled while action -n is on                                         *)
(*   rn: rig name labels [name, id: "", "rig", "bank", "both"]                                                                 *)
(*   enc: <<>> or <<[num, den]>>: bank encoder, step width num/den; ef: encoder before the switches                             *)
(* Rig IDs: 5 * bank + rig, unknown: -1.                                                                                       *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC

VARIABLES cfg,
    D,      \* the whole state, see InitWith
    act, out

vars == <<cfg, D, act, out>>
View == [c |-> cfg, d |-> D]
PerBank == 5
NumBanks == 125
White == <<255, 255, 255>>
BankColors == <<<<0, 0, 255>>, <<255, 255, 0>>, <<255, 0, 0>>, <<100, 255, 100>>, <<180, 0, 120>>>>
BankColor(b) == BankColors[(b % 5) + 1]
MaxMorph == 16383
Blink == 400
Enc == 99       \* owner of a preselection: the encoder
Cap(n, lim) == IF n > lim THEN lim + 1 ELSE n
Bk(v) == v \div PerBank
Rg(v) == v % PerBank
Trunc(n, d) == IF n >= 0 THEN n \div d ELSE -((-n) \div d)
Clamp(v, lo, hi) == IF v < lo THEN lo ELSE IF v > hi THEN hi ELSE v
Acts == 1..Len(cfg.act)
SwitchOf(i) == CHOOSE s \in DOMAIN cfg.sw : i \in ToSet(cfg.sw[s].acts)
Order == FlattenSeq([s \in DOMAIN cfg.sw |-> cfg.sw[s].acts])

(* ------------------------------------------------------------------------ switches *)
RigOn(S, i) == LET a == cfg.act[i] IN S.rid # -1 /\ a.rig # 0 /\ Rg(S.rid) = a.rig - 1 /\ (a.bank # 0 => Bk(S.rid) = a.bank - 1)
RECURSIVE Enabled(_, _)
Enabled(S, i) == LET e == cfg.act[i].en IN IF e = 0 THEN TRUE ELSE IF e > 0 THEN S.flag[e] ELSE RigOn(S, -e) /\ Enabled(S, -e)

Segs(S, i) ==
    LET s == SwitchOf(i)
        n == Len(cfg.sw[s].px)
        users == SelectSeq(cfg.sw[s].acts, LAMBDA j : cfg.act[j].leds /\ Enabled(S, j))
        m == Len(users)
        x == CHOOSE q \in DOMAIN users : users[q] = i
        first == n - m + 1
    IN IF ~cfg.act[i].leds \/ ~Enabled(S, i) \/ n = 0 THEN <<>>
       ELSE IF m = 1 THEN [q \in 1..n |-> q]
       ELSE IF m < n THEN IF x = 1 THEN [q \in 1..first |-> q] ELSE <<first + x - 1>>
       ELSE IF x <= n THEN <<x>> ELSE <<>>

Dim(rgb, f) == <<(rgb[1] * f) \div 1000, (rgb[2] * f) \div 1000, (rgb[3] * f) \div 1000>>
(* a morph display notices that its rig comes or goes: the next value reported is not a change made by the user *)
Link(S, j) ==
    IF cfg.act[j].en >= 0 THEN S
    ELSE LET e == IF Enabled(S, j) THEN 1 ELSE 0 IN
         IF S.A[j].le = e THEN S ELSE [S EXCEPT !.A[j].le = e, !.A[j].ign = (S.A[j].le # -1) \/ @]
Linked(S, i) == LET s == SwitchOf(i) IN
    IF cfg.sw[s].px = <<>> \/ ~cfg.act[i].leds \/ ~Enabled(S, i) THEN S
    ELSE FoldLeft(LAMBDA T, j : IF cfg.act[j].leds THEN Link(T, j) ELSE T, S, cfg.sw[s].acts)
Light(S0, i, color, b) ==
    LET s == SwitchOf(i)
        S == Linked(S0, i)
        seg == ToSet(Segs(S, i))
        ncol == [q \in DOMAIN cfg.sw[s].px |-> IF q \in seg THEN color ELSE S.sw[s].col[q]]
        nbri == [q \in DOMAIN cfg.sw[s].px |-> IF q \in seg THEN b ELSE S.sw[s].bri[q]]
    IN IF seg = {} THEN S
       ELSE [S EXCEPT !.sw[s].col = ncol, !.sw[s].bri = nbri,
                      !.leds = [x \in DOMAIN S.leds |-> IF \E q \in seg : cfg.sw[s].px[q] = x - 1
                                    THEN Dim(color, b) ELSE S.leds[x]]]
Contrast(b) == IF 2126 * b[1] + 7151 * b[2] + 721 * b[3] < 1400000 THEN White ELSE <<0, 0, 0>>
Text(S, i, t) == LET l == cfg.act[i].lab IN IF l = 0 THEN S ELSE [S EXCEPT !.lab[l].t = t]
Back(S, i, b) == LET l == cfg.act[i].lab IN IF l = 0 \/ S.lab[l].b = b THEN S
                 ELSE [S EXCEPT !.lab[l].b = b, !.lab[l].c = IF cfg.lab[l].c # <<>> THEN cfg.lab[l].c ELSE Contrast(b)]
(* label text and background, then LEDs *)
Paint(S, i, t, back, color, b) == Light(Back(Text(S, i, t), i, back), i, color, b)
Send(S, cc, v) == [S EXCEPT !.sent = Append(@, <<176, cc, v>>)]
Unknown(S, i) == Paint(S, i, "", Dim(White, cfg.doff), White, cfg.boff)
CbText(b, r) == ToString(b) \o "|" \o ToString(r)
CbColor(b, r) == IF (b + r) % 2 = 0 THEN <<10, 20, 30>> ELSE <<200, 100, 0>>

(* ------------------------------------------------------------------------ rig select *)
RigText(a, b, r) == IF a.tcb THEN CbText(b, r) ELSE IF a.txt # "" THEN a.txt ELSE "Rig " \o ToString(b + 1) \o "-" \o ToString(r + 1)
Remember(S, i) ==
    LET a == cfg.act[i]
        away == ~RigOn(S, i)
    IN IF S.A[i].rem = S.rid THEN S
       ELSE [S EXCEPT !.A[i].rem = S.rid,
                      !.A[i].off = IF a.off = -1 /\ a.rig # 0 /\ away /\ (Rg(S.rid) + 1) \notin ToSet(a.excl) THEN Rg(S.rid) + 1 ELSE @,
                      !.A[i].boff = IF a.boff = -1 /\ a.bank # 0 /\ away THEN Bk(S.rid) + 1 ELSE @]
RigShow(S0, i) ==
    LET a == cfg.act[i]
        S == Remember(S0, i)
        b == Bk(S.rid)
        r == Rg(S.rid)
        on == RigOn(S, i)
        target == a.mode = 20
        color == IF a.color # <<>> THEN a.color[1]
                 ELSE IF a.ccb THEN CbColor(b, r)
                 ELSE IF target /\ S.pre # -1 THEN BankColor(S.pre)
                 ELSE IF a.bank = 0 \/ ~target THEN BankColor(b)
                 ELSE IF S.A[i].boff # 0 /\ on THEN BankColor(S.A[i].boff - 1)
                 ELSE BankColor(a.bank - 1)
        tb == IF S.pre # -1 THEN S.pre
              ELSE IF a.bank = 0 THEN b
              ELSE IF on /\ S.A[i].off # 0 /\ S.A[i].boff # 0 THEN S.A[i].boff - 1
              ELSE a.bank - 1
        tr == IF S.pre = -1 /\ on /\ S.A[i].off # 0 /\ (a.bank = 0 \/ S.A[i].boff # 0) THEN S.A[i].off - 1
              ELSE IF a.rig # 0 THEN a.rig - 1 ELSE r
        text == IF target THEN RigText(a, tb, tr) ELSE RigText(a, b, r)
        lit == IF S.pre # -1 /\ S.bs # -1 THEN S.bs = 0 ELSE target /\ on
    IN IF S0.rid = -1 THEN Unknown(S0, i)
       ELSE Paint(S, i, text, IF target /\ S.pre = -1 /\ on THEN color ELSE Dim(color, cfg.doff), color, IF lit THEN cfg.bon ELSE cfg.boff)
Same(S, i) == LET a == cfg.act[i] IN S.rid # -1 /\ a.rbm /\ S.A[i].off = 0 /\ S.A[i].boff = 0 /\ RigOn(S, i)
RigPush(S, i) ==
    LET a == cfg.act[i]
        on == RigOn(S, i)
        free == S.pre = -1
        S1 == IF ~free \/ a.bank = 0 THEN S
              ELSE Send(S, 47, IF S.A[i].boff # 0 /\ on THEN S.A[i].boff - 1 ELSE a.bank - 1)
        S2 == IF ~free THEN S1 ELSE [S1 EXCEPT !.mo = IF ~Same(S, i) THEN 0 ELSE IF a.mom THEN MaxMorph ELSE IF @ > 0 THEN 0 ELSE MaxMorph]
        n == IF on /\ S.A[i].off # 0 /\ free THEN S.A[i].off ELSE IF a.rig # 0 THEN a.rig ELSE IF S.rid # -1 THEN Rg(S.rid) + 1 ELSE 0
        S3 == [S2 EXCEPT !.A[i].snt = n]
        S4 == IF n = 0 THEN S3 ELSE Send(S3, 49 + n, 1)
    IN IF free THEN S4 ELSE [S4 EXCEPT !.mo = 0, !.pre = -1]
Up(S, i) == IF S.A[i].snt = 0 THEN S ELSE [Send(S, 49 + S.A[i].snt, 0) EXCEPT !.A[i].snt = 0]
RigRelease(S, i) == Up(IF Same(S, i) /\ cfg.act[i].mom THEN [S EXCEPT !.mo = 0] ELSE S, i)

(* ------------------------------------------------------------------------ bank select *)
BankShow(S0, i) ==
    LET a == cfg.act[i]
        b == Bk(S0.bv)
        r == Rg(S0.bv)
        cur == b = a.bank - 1
        mine == a.pre /\ S0.pre = a.bank - 1
        on == IF mine THEN S0.bs = 1 ELSE cur
        onn == IF on THEN 1 ELSE 0
        S == [S0 EXCEPT !.A[i].rem = S0.bv, !.A[i].ls = onn]
        target == a.mode = 20
        boff == IF a.pre THEN 0 ELSE a.boff
        color == IF a.color # <<>> THEN a.color[1] ELSE IF a.ccb THEN CbColor(b, r)
                 ELSE IF ~target THEN BankColor(b) ELSE IF cur /\ boff # 0 THEN BankColor(boff - 1) ELSE BankColor(a.bank - 1)
        tb == IF ~target THEN b ELSE IF on /\ boff # 0 THEN boff - 1 ELSE a.bank - 1
        text == IF a.txt # "" THEN a.txt ELSE IF a.tcb THEN CbText(tb, r) ELSE "Bank " \o ToString(tb + 1)
    IN IF S0.bv = -1 THEN Unknown(S0, i)
       ELSE IF S0.A[i].rem = S0.bv /\ S0.A[i].ls = onn THEN S0
       ELSE Paint(S, i, text, IF target /\ on THEN color ELSE Dim(color, cfg.doff), color, IF target /\ on THEN cfg.bon ELSE cfg.boff)

(* ------------------------------------------------------------------------ bank up/down *)
Banks(a) == IF a.maxb = 0 THEN NumBanks ELSE a.maxb
NextBank(S, a, b) == ((IF S.pre # -1 THEN S.pre ELSE b) + a.dir + Banks(a)) % Banks(a)
ChVal(S, a) == IF a.pre THEN S.bv ELSE IF a.dir = 1 THEN S.nb ELSE S.pb
BchShow(S, i) ==
    LET a == cfg.act[i]
        v == ChVal(S, a)
        b == Bk(v)
        r == Rg(v)
        t == IF a.mode = 10 THEN b ELSE NextBank(S, a, b)
        color == IF a.ccb THEN CbColor(b, r) ELSE IF a.color # <<>> THEN a.color[1] ELSE BankColor(t)
        bri == IF a.pre /\ S.pre # -1 /\ S.own = i /\ S.bs = 1 THEN a.lbx ELSE a.lb
    IN IF v = -1 THEN Paint(S, i, a.txt, Dim(White, a.dim), White, a.lb)
       ELSE Paint(S, i, IF a.tcb THEN CbText(t, r) ELSE a.txt, Dim(color, a.dim), color, bri)

(* ------------------------------------------------------------------------ rig up/down *)
NextRig(a, v) ==
    IF a.up THEN IF a.keep THEN IF Rg(v) < PerBank - 1 THEN v + 1 ELSE v ELSE (v + 1) % (PerBank * NumBanks)
    ELSE IF a.keep THEN IF Rg(v) > 0 THEN v - 1 ELSE v ELSE IF v > 0 THEN v - 1 ELSE PerBank * NumBanks - 1
RchShow(S, i) ==
    LET a == cfg.act[i]
        t == IF a.mode = 20 THEN NextRig(a, S.rid) ELSE S.rid
        color == IF a.color # <<>> THEN a.color[1] ELSE IF a.ccb THEN CbColor(Bk(S.rid), Rg(S.rid)) ELSE BankColor(Bk(t))
    IN IF S.rid = -1 THEN Paint(S, i, "", <<50, 50, 50>>, White, cfg.bon)
       ELSE Paint(S, i, RigText(a, Bk(t), Rg(t)), color, color, cfg.bon)
RchPush(S, i) ==
    LET a == cfg.act[i]
        t == NextRig(a, S.rid)
        S1 == IF Bk(t) # Bk(S.rid) \/ S.pre # -1 THEN Send(S, 47, Bk(t)) ELSE S
    IN IF S.rid = -1 \/ t = S.rid THEN S
       ELSE [Send(S1, 50 + Rg(t), 1) EXCEPT !.A[i].snt = Rg(t) + 1, !.mo = 0, !.pre = -1]

(* ------------------------------------------------------------------------ morph state *)
MorColor(S, a) == IF a.color # <<>> THEN a.color[1]
                  ELSE [q \in 1..3 |-> a.cb[q] + Trunc((a.cm[q] - a.cb[q]) * S.mo, MaxMorph)]
MorShow(S0, i) ==
    LET a == cfg.act[i]
        v == S0.mv
        new == v # S0.A[i].rem /\ v # -1 /\ v # S0.A[i].lv
        S == [S0 EXCEPT !.A[i].rem = v, !.A[i].st = @ /\ (v # -1 \/ S0.A[i].rem = v), !.A[i].lv = IF new THEN v ELSE @, !.mo = IF new /\ ~S0.A[i].ign THEN v ELSE @, !.A[i].ign = IF new THEN FALSE ELSE @]
        color == MorColor(S, a)
        st == IF S.A[i].st THEN 1 ELSE 0
        S1 == [S EXCEPT !.A[i].shc = color, !.A[i].ls = st]
        S2 == Back(Light(S1, i, color, cfg.bon), i, color)
    IN IF S.A[i].shc = color /\ S.A[i].ls = st THEN S ELSE IF a.txt = "" THEN S2 ELSE Text(S2, i, a.txt)
MorPush(S, i) ==
    IF cfg.act[i].btn THEN IF S.A[i].st THEN S ELSE MorShow([Send(S, 80, 1) EXCEPT !.A[i].st = TRUE, !.mo = IF @ > 0 THEN 0 ELSE MaxMorph], i)
    ELSE MorShow([S EXCEPT !.A[i].st = ~@, !.A[i].t = 0], i)
MorRelease(S, i) ==
    IF cfg.act[i].btn THEN IF S.A[i].st THEN MorShow([Send(S, 80, 0) EXCEPT !.A[i].st = FALSE], i) ELSE S
    ELSE IF S.A[i].t > 600 THEN MorShow([S EXCEPT !.A[i].st = ~@, !.A[i].t = 0], i) ELSE S

(* ------------------------------------------------------------------------ all *)
Show(S0, i) ==
    LET S == Link(S0, i) IN
    IF ~Enabled(S, i) THEN S
    ELSE CASE cfg.act[i].k = "rig" -> RigShow(S, i) [] cfg.act[i].k = "bank" -> BankShow(S, i) [] cfg.act[i].k = "bch" -> BchShow(S, i)
           [] cfg.act[i].k = "rch" -> RchShow(S, i) [] cfg.act[i].k = "mor" -> MorShow(S, i)

BankPush(S, i) ==
    LET a == cfg.act[i]
        cur == Bk(S.bv) = a.bank - 1
        S1 == IF a.pre /\ (S.pre # -1 \/ ~cur) THEN [S EXCEPT !.pre = a.bank - 1, !.own = i] ELSE S
        S2 == FoldLeft(Show, S1, Order)
        S3 == Send(S2, 47, IF ~a.pre /\ a.boff # 0 /\ cur THEN a.boff - 1 ELSE a.bank - 1)
    IN IF S.bv = -1 THEN S
       ELSE IF a.pre THEN S3
       ELSE [Send(S3, 50 + Rg(S.bv), 1) EXCEPT !.A[i].snt = Rg(S.bv) + 1, !.pre = -1, !.mo = 0]
BchPush(S, i) ==
    LET a == cfg.act[i] v == NextBank(S, a, Bk(S.bv)) IN
    IF ~a.pre THEN [Send(S, IF a.dir = 1 THEN 48 ELSE 49, 0) EXCEPT !.mo = 0]
    ELSE IF S.bv = -1 THEN S
    ELSE [Send(S, 47, v) EXCEPT !.pre = v, !.own = i, !.mo = 0]

Push(S, i) == CASE cfg.act[i].k = "rig" -> RigPush(S, i) [] cfg.act[i].k = "bank" -> BankPush(S, i) [] cfg.act[i].k = "bch" -> BchPush(S, i)
                [] cfg.act[i].k = "rch" -> RchPush(S, i) [] cfg.act[i].k = "mor" -> MorPush(S, i)
Release(S, i) == CASE cfg.act[i].k = "rig" -> RigRelease(S, i) [] cfg.act[i].k \in {"bank", "rch"} -> Up(S, i) [] cfg.act[i].k = "mor" -> MorRelease(S, i) [] OTHER -> S
Flip(S, s) ==
    LET S1 == [S EXCEPT !.sw[s].down = ~@] IN
    FoldLeft(LAMBDA T, i : IF ~Enabled(T, i) THEN Link(T, i) ELSE IF S1.sw[s].down THEN Push(Link(T, i), i) ELSE Release(Link(T, i), i), S1, cfg.sw[s].acts)

(* encoder: preselects the bank relative to the current one *)
Turn(S, d) ==
    LET e == cfg.enc[1]
        pos == S.enc.pos + d
        p == Trunc(pos * e.num, e.den)
        S0 == [S EXCEPT !.enc.pos = pos, !.enc.ref = p, !.enc.ok = TRUE]
        S1 == IF S.bv = -1 THEN [S0 EXCEPT !.bv = 0] ELSE S0
        cur == Bk(S1.bv)
        v == Clamp(cur + p - S.enc.ref, 0, NumBanks - 1)
        S2 == Send([S1 EXCEPT !.bv = v * PerBank + Rg(@), !.pre = v], 47, v)
    IN IF cfg.enc = <<>> THEN S
       ELSE IF ~S.enc.ok \/ p = S.enc.ref THEN S0     \* the first position read is the reference
       ELSE IF v = cur THEN S1
       ELSE IF S.own = Enc THEN S2 ELSE [S2 EXCEPT !.own = Enc, !.bs = 0]

(* ------------------------------------------------------------------------ reports *)
Src(i) == LET a == cfg.act[i] IN
    CASE a.k \in {"rig", "rch"} -> "rid" [] a.k = "bank" -> "bv" [] a.k = "mor" -> IF a.btn THEN "mb" ELSE "md"
      [] a.k = "bch" -> IF a.pre THEN "bv" ELSE IF a.dir = 1 THEN "nb" ELSE "pb"
Reg == LET RECURSIVE Uniq(_, _)
           Uniq(s, acc) == IF s = <<>> THEN acc ELSE Uniq(Tail(s), IF Head(s) \in ToSet(acc) THEN acc ELSE Append(acc, Head(s)))
       IN Uniq([q \in DOMAIN Order |-> Src(Order[q])], <<>>)
Told(S, src) == FoldLeft(LAMBDA T, i : IF Src(i) = src THEN Show(T, i) ELSE T, S, Order)

NameText(S, n) ==
    LET id == IF S.rid = -1 \/ n.id = "" THEN "" ELSE IF n.id = "rig" THEN ToString(Rg(S.rid) + 1) ELSE IF n.id = "bank" THEN ToString(Bk(S.rid) + 1)
              ELSE ToString(Bk(S.rid) + 1) \o "-" \o ToString(Rg(S.rid) + 1)
        nm == IF S.name = "" THEN "@" ELSE S.name
    IN IF S.pre # -1 THEN "Bank " \o ToString(S.pre + 1) ELSE IF ~n.name THEN id ELSE IF id = "" THEN nm ELSE id \o " " \o nm
Named(S, q) == LET n == cfg.rn[q] IN
    IF ~n.name /\ S.pre = -1 /\ (n.id = "" \/ S.rid = -1) THEN S ELSE [S EXCEPT !.rn[q].t = NameText(S, n)]
NamesFor(S, isName) == FoldLeft(LAMBDA T, q : IF (isName /\ cfg.rn[q].name) \/ (~isName /\ cfg.rn[q].id # "") THEN Named(T, q) ELSE T, S, [q \in DOMAIN cfg.rn |-> q])

RigReport(S, v) ==
    LET one(T, src) == CASE src = "rid" -> Told([T EXCEPT !.rid = v], src) [] src = "bv" -> Told([T EXCEPT !.bv = v], src)
                         [] src = "nb" -> Told([T EXCEPT !.nb = v], src) [] src = "pb" -> Told([T EXCEPT !.pb = v], src) [] OTHER -> T
        S1 == FoldLeft(one, S, IF cfg.ef /\ cfg.enc # <<>> THEN <<"bv">> \o SelectSeq(Reg, LAMBDA x : x # "bv") ELSE Reg)
        S2 == [S1 EXCEPT !.bv = IF cfg.enc # <<>> THEN v ELSE @, !.rid = v]
    IN NamesFor(S2, FALSE)
MorReport(S, v) == FoldLeft(LAMBDA T, src : IF src \in {"mb", "md"} THEN Told([T EXCEPT !.mv = v], src) ELSE T, S, Reg)
(* messages: <<"cc", n>>: first part of the rig ID, <<"pc", n>>: second part, <<"morph", v>>, <<"name", text>> *)
Report(S, m) ==
    CASE m[1] = "cc" -> [S EXCEPT !.p1 = m[2]]
      [] m[1] = "pc" -> IF S.p1 = -1 THEN S ELSE RigReport([S EXCEPT !.p1 = -1], 128 * S.p1 + m[2])
      [] m[1] = "morph" -> MorReport(S, m[2])
      [] m[1] = "name" -> NamesFor([S EXCEPT !.name = m[2]], TRUE)

(* ------------------------------------------------------------------------ update cycle *)
Flash(S, i) == [S EXCEPT !.A[i].t = 0, !.bs = 1 - @]
Ever(S) == S.own # -1 \/ \E i \in Acts : cfg.act[i].k = "bch" /\ cfg.act[i].pre
CbUpdate(S, i) ==
    LET a == cfg.act[i] IN
    CASE a.k = "rig" -> LET want == IF S.pre # -1 /\ S.bs # -1 THEN S.bs ELSE -1 IN
                        IF S.A[i].lb = want THEN S ELSE Show([S EXCEPT !.A[i].lb = want], i)
      [] a.k = "bank" /\ a.pre /\ Ever(S) -> Show(IF S.pre = a.bank - 1 /\ S.own = i /\ S.A[i].t > Blink THEN Flash(S, i) ELSE S, i)
      [] a.k = "bch" /\ a.pre ->
           (IF S.pre # -1 /\ S.own = i THEN IF S.A[i].t > Blink THEN Show([Flash(S, i) EXCEPT !.A[i].lb = 1], i) ELSE [S EXCEPT !.A[i].lb = 1]
            ELSE IF S.A[i].lb = 1 THEN Show([S EXCEPT !.A[i].lb = -1], i) ELSE S)
      [] OTHER -> S
Noticed(S0, i) ==
    LET S == Link(S0, i)
        e == IF Enabled(S, i) THEN 1 ELSE 0
        S1 == [S EXCEPT !.A[i].seen = e]
        k == cfg.act[i].k
    IN IF S.A[i].seen = e THEN S
       ELSE Show(IF k = "bank" THEN [S1 EXCEPT !.A[i].rem = -2, !.A[i].ls = -1] ELSE IF k = "mor" THEN [S1 EXCEPT !.A[i].rem = -2, !.A[i].ls = -1, !.A[i].shc = <<>>] ELSE S1, i)
EncUpdate(S) == IF cfg.enc # <<>> /\ S.pre # -1 /\ S.own = Enc /\ S.enc.t > Blink THEN [S EXCEPT !.enc.t = 0, !.bs = 1 - @] ELSE S
NameUpdate(S, q) == LET n == cfg.rn[q] IN
    IF S.rn[q].pi = S.pre \/ (~n.name /\ n.id = "") THEN S ELSE Named([S EXCEPT !.rn[q].pi = S.pre], q)
Cycle(S) ==
    LET S1 == IF cfg.ef THEN EncUpdate(S) ELSE S
        S2 == FoldLeft(LAMBDA T, i : Noticed(CbUpdate(T, i), i), S1, Order)
        S3 == IF cfg.ef THEN S2 ELSE EncUpdate(S2)
    IN FoldLeft(NameUpdate, S3, [q \in DOMAIN cfg.rn |-> q])

Work == [sent |-> <<>>] @@ D
Obs(S) == [exc |-> "", sent |-> S.sent, leds |-> TLCEval(S.leds), lab |-> TLCEval([l \in DOMAIN S.lab |-> <<S.lab[l].t, S.lab[l].c, S.lab[l].b>>]),
           rn |-> TLCEval([q \in DOMAIN S.rn |-> S.rn[q].t])]
Store(S) == [x \in DOMAIN S \ {"sent"} |-> S[x]]

Timer(i, t) == CASE cfg.act[i].k = "mor" -> Cap(t, 600) [] cfg.act[i].k \in {"bank", "bch"} /\ cfg.act[i].pre -> Cap(t, Blink) [] OTHER -> 0
(* act: dt; sw: switches flipped; turn: encoder; msgs; en: enable flags flipped *)
Tick(a) ==
    LET S0 == [Work EXCEPT !.A = [i \in DOMAIN D.A |-> [D.A[i] EXCEPT !.t = Timer(i, @ + a.dt)]], !.enc.t = IF cfg.enc = <<>> THEN 0 ELSE Cap(@ + a.dt, Blink),
                           !.flag = [f \in DOMAIN D.flag |-> IF f \in ToSet(a.en) THEN ~D.flag[f] ELSE D.flag[f]]]
        S1 == IF cfg.ef THEN FoldLeft(Flip, Turn(S0, a.turn), a.sw) ELSE Turn(FoldLeft(Flip, S0, a.sw), a.turn)
        S2 == FoldLeft(Report, S1, a.msgs)
        cyc == D.upd + a.dt > cfg.interval
        S3 == IF cyc THEN Cycle(S2) ELSE S2
    IN /\ D' = Store([S3 EXCEPT !.upd = IF cyc THEN 0 ELSE @ + a.dt])
       /\ out' = Obs(S3)
       /\ UNCHANGED cfg

InitWith(c) ==
    /\ cfg = c
    /\ LET haspre == \E i \in DOMAIN c.act : c.act[i].k \in {"bank", "bch"} /\ c.act[i].pre
           S0 == [rid |-> -1, bv |-> -1, nb |-> -1, pb |-> -1, mv |-> -1, p1 |-> -1, name |-> "",
                  pre |-> -1, own |-> -1, bs |-> IF haspre THEN 0 ELSE -1, mo |-> 0,
                  enc |-> [pos |-> 0, ref |-> 0, t |-> Blink + 1, ok |-> FALSE], flag |-> [f \in 1..c.nf |-> TRUE], upd |-> Cap(1000, c.interval),
                  A |-> [i \in DOMAIN c.act |-> [rem |-> -2, off |-> IF c.act[i].k # "rig" THEN 0 ELSE IF c.act[i].off = -1 THEN 1 ELSE c.act[i].off,
                                                 boff |-> IF c.act[i].k # "rig" THEN 0 ELSE IF c.act[i].boff = -1 THEN 1 ELSE c.act[i].boff,
                                                 ls |-> -1, lb |-> -1, t |-> 1000, snt |-> 0, seen |-> -1, le |-> -1, ign |-> FALSE, st |-> FALSE, shc |-> <<>>, lv |-> -1]],
                  sw |-> [s \in DOMAIN c.sw |-> [down |-> FALSE, col |-> [q \in DOMAIN c.sw[s].px |-> White], bri |-> [q \in DOMAIN c.sw[s].px |-> 500]]],
                  leds |-> [x \in 1..c.np |-> IF \E s \in DOMAIN c.sw : (x - 1) \in ToSet(c.sw[s].px) THEN <<127, 127, 127>> ELSE <<0, 0, 0>>],
                  lab |-> [l \in DOMAIN c.lab |-> [t |-> c.lab[l].t, b |-> c.lab[l].b, c |-> IF c.lab[l].c # <<>> THEN c.lab[l].c ELSE Contrast(c.lab[l].b)]],
                  rn |-> [q \in DOMAIN c.rn |-> [t |-> "start", pi |-> -1]], sent |-> <<>>]
           S1 == FoldLeft(Show, S0, FlattenSeq([s \in DOMAIN c.sw |-> c.sw[s].acts]))
       IN D = Store([S1 EXCEPT !.A = [i \in DOMAIN S1.A |-> [S1.A[i] EXCEPT !.t = Timer(i, @)]]]) /\ out = Obs(S1)
    /\ act = [op |-> "init"]
Do(a) == act' = a /\ Tick(a)

-----------------------------------------------------------------------------
(* A preselection is open exactly from its announcement to the next rig selection, and always names a bank of the Profiler *)
PreOk == D.pre \in -1..(NumBanks - 1) /\ (D.pre # -1 => D.own # -1 /\ D.bs \in 0..1)
RigsOk == \A i \in Acts : D.A[i].snt \in 0..PerBank /\ D.A[i].off \in 0..PerBank
Safety == PreOk /\ RigsOk
(* Messages of one step: rig selections are pressed once and released by the same rig; banks and rigs sent exist *)
RigMsgs == SelectSeq(out'.sent, LAMBDA m : m[2] \in 50..54)
StepOK ==
    /\ \A q \in DOMAIN out'.sent : out'.sent[q][2] \in (47..54) \cup {80} /\ (out'.sent[q][2] = 47 => out'.sent[q][3] \in 0..(NumBanks - 1))
    /\ (act'.sw = <<>> /\ act'.turn = 0) => out'.sent = <<>>
    /\ (\E q \in DOMAIN RigMsgs : RigMsgs[q][3] = 1) => D'.pre = -1 \/ Len(act'.sw) > 1 \/ act'.turn # 0
    /\ (D.pre # -1 /\ D'.pre = -1) => \E q \in DOMAIN RigMsgs : RigMsgs[q][3] = 1
=============================================================================
