------------------------------- MODULE Values -------------------------------
(* Switches which change a parameter stepwise (with repeat while held down), tempo display, tap tempo; the previews they show. *)
(* cfg: np: number of LEDs; interval: update interval; fb: set values are fed back at once; poll: the device does not report    *)
(*   the parameters (nor the tempo) by itself, they are requested; boff, doff: global LED brightness off, label dim factor off *)
(*   (1/1000); nf: number of enable flags                                                                                      *)
(*   pr: parameters [name, sys: SysEx (14 bit) or CC, adr]                                                                     *)
(*   lab: labels [t, b, c: fixed text color (<<>>: automatic), p: parameter shown (0: none), def: text if unknown]             *)
(*   sw: switches [px: LEDs, acts: actions], act: actions [lab, leds, en: enable flag (0: always), col, k], k:                 *)
(*     ud    [p, off: offset, max, rep: repeat time (0: none), pre, suf: text before/after the value, bri: LED brightness (%),  *)
(*            chg: preview label (0: none), tmo: preview time, cv: prefix for previews ("": parameter name)]                   *)
(*     tempo [chg, tmo, pre, suf, bri]        tap []                                                                           *)
(* Values unknown: -1. Times in ms.                                                                                            *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC

VARIABLES cfg, D, act, out
vars == <<cfg, D, act, out>>
View == [c |-> cfg, d |-> D]
Never == -2
Cap(n, lim) == IF n > lim THEN lim + 1 ELSE n
Acts == 1..Len(cfg.act)
SwitchOf(i) == CHOOSE s \in DOMAIN cfg.sw : i \in ToSet(cfg.sw[s].acts)
Order == FlattenSeq([s \in DOMAIN cfg.sw |-> cfg.sw[s].acts])
MaxT(S, d) == IF S = {} THEN d ELSE CHOOSE x \in S : \A y \in S : x >= y
Round(n, d) == LET q == n \div d r == n % d IN IF 2 * r < d THEN q ELSE IF 2 * r > d THEN q + 1 ELSE IF q % 2 = 0 THEN q ELSE q + 1
Clamp(v, lo, hi) == IF v < lo THEN lo ELSE IF v > hi THEN hi ELSE v
Bpm(v) == ToString(Round(v, 64))

(* ------------------------------------------------------------------------ LEDs; brightness <<n, d>>: n/d *)
Enabled(S, i) == cfg.act[i].en = 0 \/ S.flag[cfg.act[i].en]
Segs(S, i) ==
    LET s == SwitchOf(i)
        n == Len(cfg.sw[s].px)
        users == SelectSeq(cfg.sw[s].acts, LAMBDA j : cfg.act[j].leds /\ Enabled(S, j))
        m == Len(users)
        x == CHOOSE q \in DOMAIN users : users[q] = i
        first == n - m + 1
    IN IF ~cfg.act[i].leds \/ ~Enabled(S, i) \/ n = 0 THEN <<>>
       ELSE IF m = 1 THEN [q \in 1..n |-> q]
       ELSE IF m < n THEN IF x = 1 THEN [q \in 1..first |-> q] ELSE <<first + x - 1>>
       ELSE IF x <= n THEN <<x>> ELSE <<>>
Dim(c, b) == <<(c[1] * b[1]) \div b[2], (c[2] * b[1]) \div b[2], (c[3] * b[1]) \div b[2]>>
Light(S, i, c, b) ==
    LET seg == ToSet(Segs(S, i)) px == cfg.sw[SwitchOf(i)].px
    IN [S EXCEPT !.leds = [x \in DOMAIN @ |-> IF \E q \in seg : px[q] = x - 1 THEN Dim(c, b) ELSE @[x]]]

(* ------------------------------------------------------------------------ labels *)
White == <<255, 255, 255>>
Contrast(b) == IF 2126 * b[1] + 7151 * b[2] + 721 * b[3] < 1400000 THEN White ELSE <<0, 0, 0>>
Txt(S, l, t) == IF l = 0 THEN S ELSE [S EXCEPT !.lab[l].txt = t]
Back(S, l, b) == IF l = 0 THEN S ELSE [S EXCEPT !.lab[l].b = b]
Normal(S, l) == LET a == cfg.lab[l] IN IF S.val[a.p] = -1 THEN a.def ELSE ToString(S.val[a.p])
Refresh(S, l) == IF S.lab[l].ov # "" THEN [S EXCEPT !.lab[l].txt = S.lab[l].ov]
                 ELSE IF cfg.lab[l].p # 0 THEN [S EXCEPT !.lab[l].txt = Normal(S, l)] ELSE S
Free(S, l) ==
    LET x == S.lab[l]
    IN Refresh([S EXCEPT !.lab[l].ov = "", !.lab[l].per = 0, !.lab[l].t = 0, !.lab[l].orig = "",
                         !.lab[l].txt = IF cfg.lab[l].p = 0 /\ x.txt = x.ov THEN x.orig ELSE @], l)
Preview(S, l, text, tmo) ==
    IF l = 0 THEN S
    ELSE [S EXCEPT !.lab[l].orig = IF S.lab[l].ov = "" THEN S.lab[l].txt ELSE @, !.lab[l].ov = text, !.lab[l].txt = text, !.lab[l].per = tmo, !.lab[l].t = 0]
Expire(S, l) == IF l = 0 THEN S
                ELSE IF S.lab[l].ov # "" /\ S.lab[l].per # 0 /\ S.lab[l].t > S.lab[l].per THEN Free(S, l) ELSE S

(* ------------------------------------------------------------------------ what the switches show *)
UdShow(S, i) ==
    LET a == cfg.act[i] v == S.val[a.p]
        n == IF v = -1 THEN 0 ELSE IF v > a.max THEN a.max ELSE v
        lvl == IF a.off < 0 THEN a.max - n ELSE n
        S1 == Txt(Back(S, a.lab, Dim(a.col, <<lvl, a.max>>)), a.lab, a.pre \o (IF v = -1 THEN "?" ELSE ToString(Round(v * 100, a.max))) \o a.suf)
    IN IF S.A[i].last = v THEN S ELSE Light([S1 EXCEPT !.A[i].last = v], i, a.col, <<lvl * a.bri, a.max * 100>>)

TempoShow(S, i) ==
    LET a == cfg.act[i] x == S.A[i]
        S1 == IF S.pulse # -1 /\ S.pulse # x.cur THEN Light([S EXCEPT !.A[i].cur = S.pulse], i, a.col, <<IF S.pulse > 0 THEN a.bri ELSE 0, 100>>) ELSE S
        new == (a.lab # 0 \/ a.chg # 0) /\ S.bpm # -1 /\ S.bpm # x.last
        text == a.pre \o Bpm(S.bpm) \o a.suf
        S2 == IF new /\ x.last # -1 /\ S.rig = x.rig THEN Preview(S1, a.chg, text, a.tmo) ELSE S1
        S3 == IF new THEN Txt([S2 EXCEPT !.A[i].last = S.bpm, !.A[i].rig = IF a.chg # 0 THEN S.rig ELSE @], a.lab, text) ELSE S2
    IN IF S.tun = 1 THEN S ELSE Back(S3, a.lab, a.col)

TapShow(S, i) ==
    LET a == cfg.act[i]
        S1 == IF S.A[i].cur # S.tap THEN [S EXCEPT !.A[i].cur = S.tap, !.A[i].st = S.tap >= 1] ELSE S
        st == IF S1.A[i].st THEN 1 ELSE 0
    IN IF S1.A[i].sh = st THEN S1
       ELSE Light(Txt(Back([S1 EXCEPT !.A[i].sh = st], a.lab, Dim(a.col, <<cfg.doff, 1000>>)), a.lab, "Tap"), i, a.col, <<cfg.boff, 1000>>)

Show(S, i) == IF ~Enabled(S, i) THEN S ELSE CASE cfg.act[i].k = "ud" -> UdShow(S, i) [] cfg.act[i].k = "tempo" -> TempoShow(S, i) [] OTHER -> TapShow(S, i)
ResetA(S, i) == CASE cfg.act[i].k = "ud" -> [S EXCEPT !.A[i].last = Never]
                  [] cfg.act[i].k = "tempo" -> [S EXCEPT !.A[i].cur = Never, !.A[i].last = -1]
                  [] OTHER -> [S EXCEPT !.A[i].cur = Never, !.A[i].sh = Never]

(* ------------------------------------------------------------------------ parameters: "pulse", "tun", "bpm", "rig" or a number *)
Needs(i) == LET a == cfg.act[i] IN CASE a.k = "ud" -> <<a.p>> [] a.k = "tap" -> <<>>
                  [] OTHER -> <<-1, -2>> \o (IF a.lab # 0 \/ a.chg # 0 THEN <<-3>> ELSE <<>>) \o (IF a.chg # 0 THEN <<-4>> ELSE <<>>)
Labels == [l \in DOMAIN cfg.lab |-> l]
Registered == FoldLeft(LAMBDA s, q : IF q \in ToSet(s) THEN s ELSE Append(s, q), <<>>,
                       FlattenSeq([x \in DOMAIN Order |-> Needs(Order[x])]) \o SelectSeq([l \in DOMAIN cfg.lab |-> cfg.lab[l].p], LAMBDA p : p # 0))
Put(S, q, v) == CASE q = -1 -> [S EXCEPT !.pulse = v] [] q = -2 -> [S EXCEPT !.tun = v] [] q = -3 -> [S EXCEPT !.bpm = v] [] q = -4 -> [S EXCEPT !.rig = v]
                  [] OTHER -> [S EXCEPT !.val[q] = v]
Told(S, q) == LET S1 == FoldLeft(LAMBDA T, i : IF q \in ToSet(Needs(i)) THEN Show(T, i) ELSE T, S, Order)
              IN IF q < 0 THEN S1 ELSE FoldLeft(LAMBDA T, l : IF cfg.lab[l].p = q THEN Refresh(T, l) ELSE T, S1, Labels)
(* Requested parameters: one request is under way at a time, answers are only heard while there is one *)
Polled(q) == cfg.poll /\ (q > 0 \/ q = -3)
Report(S, m) == IF m[1] \notin ToSet(Registered) \/ (Polled(m[1]) /\ m[1] \notin S.wait) THEN S
                ELSE Told([Put(S, m[1], m[2]) EXCEPT !.wait = @ \ {m[1]}], m[1])
Lost(S) == FoldLeft(LAMBDA T, q : IF q = -4 \/ Polled(q) THEN T ELSE Told(Put(T, q, -1), q), S, Registered)
Encode(p, v) == IF cfg.pr[p].sys THEN <<240, 0, 32, 51, 2, 127, 1, 0, cfg.pr[p].adr, 0, v \div 128, v % 128>> ELSE <<176, cfg.pr[p].adr, v>>
Send(S, m) == [S EXCEPT !.sent = Append(@, m)]
Request(q) == IF q = -3 THEN <<240, 0, 32, 51, 2, 127, 65, 0, 4, 0>> ELSE <<240, 0, 32, 51, 2, 127, 65, 0, cfg.pr[q].adr, IF cfg.pr[q].sys THEN 0 ELSE 1>>
Ask(S, q) == IF ~Polled(q) \/ q \in S.wait THEN S ELSE [Send(S, Request(q)) EXCEPT !.wait = @ \union {q}]

(* ------------------------------------------------------------------------ switches *)
Percent(a, v) == ToString(Round(100 * v, a.max))
Change(S, i) ==
    LET a == cfg.act[i]
        v == Clamp(S.val[a.p] + a.off, 0, a.max)
        S1 == Send(S, Encode(a.p, v))
        S2 == IF cfg.fb /\ ~Polled(a.p) THEN Told([S1 EXCEPT !.val[a.p] = v], a.p) ELSE S1
        text == IF a.cv # "" THEN a.cv \o Percent(a, v) ELSE cfg.pr[a.p].name \o ": " \o Percent(a, v) \o "%"
    IN IF S.val[a.p] = -1 THEN S ELSE [Preview(S2, a.chg, text, a.tmo) EXCEPT !.A[i].on = TRUE, !.A[i].t = 0]
TapSet(S, i, on) ==
    IF S.A[i].st = on THEN S
    ELSE LET S1 == Send([S EXCEPT !.A[i].st = on], <<176, 30, IF on THEN 1 ELSE 0>>)
         IN Show(IF cfg.fb THEN [S1 EXCEPT !.tap = IF on THEN 1 ELSE 0] ELSE S1, i)
Push(S, i) == CASE ~Enabled(S, i) -> S [] cfg.act[i].k = "ud" -> Change(S, i) [] cfg.act[i].k = "tap" -> TapSet(S, i, TRUE) [] OTHER -> S
Release(S, i) == CASE ~Enabled(S, i) -> S [] cfg.act[i].k = "ud" -> [S EXCEPT !.A[i].on = FALSE] [] cfg.act[i].k = "tap" -> TapSet(S, i, FALSE) [] OTHER -> S
Flip(S, s) == FoldLeft(LAMBDA T, i : IF S.down[s] THEN Push(T, i) ELSE Release(T, i), S, cfg.sw[s].acts)

(* Periodic update of one action: its parameters are requested, previews end, held switches repeat, then enabling is noticed *)
Update(S, i) ==
    LET a == cfg.act[i]
        S0 == FoldLeft(Ask, S, Needs(i))
        S1 == IF a.k = "tap" THEN S0 ELSE Expire(S0, a.chg)
        hold == S1.A[i].on /\ Enabled(S1, i) /\ S1.down[SwitchOf(i)]
        S2 == IF a.k # "ud" THEN S1
              ELSE IF ~hold THEN [S1 EXCEPT !.A[i].on = FALSE]
              ELSE IF a.rep # 0 /\ S1.A[i].t > a.rep THEN Change([S1 EXCEPT !.A[i].t = 0], i) ELSE S1
        e == Enabled(S2, i)
    IN IF S2.A[i].seen = e THEN S2 ELSE Show(ResetA([S2 EXCEPT !.A[i].seen = e], i), i)

(* ------------------------------------------------------------------------ steps *)
Obs(S) == [exc |-> "", sent |-> S.sent, leds |-> TLCEval(S.leds),
           lab |-> TLCEval([l \in DOMAIN S.lab |-> <<S.lab[l].txt, IF cfg.lab[l].c # <<>> THEN cfg.lab[l].c ELSE Contrast(S.lab[l].b), S.lab[l].b>>])]
LongT(i) == IF cfg.act[i].k = "ud" THEN cfg.act[i].rep ELSE 0
Tidy(S) == [S EXCEPT !.sent = <<>>, !.A = [i \in Acts |-> IF S.A[i].on THEN S.A[i] ELSE [S.A[i] EXCEPT !.t = 0]]]
Step(S0, a) ==
    LET S1 == [S0 EXCEPT !.flag = [f \in DOMAIN @ |-> IF f \in ToSet(a.flip) THEN ~@[f] ELSE @[f]],
                         !.down = [s \in DOMAIN @ |-> IF s \in ToSet(a.btn) THEN ~@[s] ELSE @[s]],
                         !.A = [i \in Acts |-> [@[i] EXCEPT !.t = Cap(@ + a.dt, LongT(i))]],
                         !.lab = [l \in DOMAIN @ |-> [@[l] EXCEPT !.t = IF S0.lab[l].ov = "" \/ S0.lab[l].per = 0 THEN 0 ELSE Cap(@ + a.dt, S0.lab[l].per)]]]
        S2 == FoldLeft(LAMBDA T, s : IF s \in ToSet(a.btn) THEN Flip(T, s) ELSE T, S1, [s \in DOMAIN cfg.sw |-> s])
        S3 == FoldLeft(Report, S2, a.msgs)
        cyc == S0.upd + a.dt > cfg.interval
        S4 == IF ~cyc THEN S3
              ELSE FoldLeft(LAMBDA T, l : IF cfg.lab[l].p = 0 THEN T ELSE Ask(T, cfg.lab[l].p), FoldLeft(Update, IF a.lost THEN Lost(S3) ELSE S3, Order), Labels)
    IN [S4 EXCEPT !.upd = IF cyc THEN 0 ELSE Cap(S0.upd + a.dt, cfg.interval)]

InitWith(c) ==
    /\ cfg = c
    /\ LET S0 == [val |-> [p \in DOMAIN c.pr |-> -1], pulse |-> -1, tun |-> -1, bpm |-> -1, rig |-> -1, tap |-> -1,
                  A |-> [i \in DOMAIN c.act |-> [last |-> IF c.act[i].k = "ud" THEN Never ELSE -1, cur |-> Never, rig |-> -1, st |-> FALSE, sh |-> Never, on |-> FALSE, t |-> 0, seen |-> FALSE]],
                  flag |-> [f \in 1..c.nf |-> TRUE], down |-> [s \in DOMAIN c.sw |-> FALSE],
                  lab |-> [l \in DOMAIN c.lab |-> [txt |-> c.lab[l].t, b |-> c.lab[l].b, ov |-> "", orig |-> "", per |-> 0, t |-> 0]],
                  leds |-> [x \in 1..c.np |-> IF \E s \in DOMAIN c.sw : (x - 1) \in ToSet(c.sw[s].px) THEN <<127, 127, 127>> ELSE <<0, 0, 0>>],
                  wait |-> {}, sent |-> <<>>, upd |-> Cap(1000, c.interval)]
           S1 == FoldLeft(LAMBDA T, i : Show(T, i), S0, FlattenSeq([s \in DOMAIN c.sw |-> c.sw[s].acts]))
       IN /\ D = Tidy(S1) /\ out = Obs(S1)
    /\ act = [op |-> "init"]

Do(a) == /\ act' = a
         /\ LET S == Step(D, a) IN D' = TLCEval(Tidy(S)) /\ out' = TLCEval(Obs(S))
         /\ UNCHANGED cfg

-----------------------------------------------------------------------------
(* A label shows its preview while there is one, else its own content *)
Shown == \A l \in DOMAIN D.lab : IF D.lab[l].ov # "" THEN D.lab[l].txt = D.lab[l].ov ELSE TRUE
Safety == Shown
(* After an update all enabled switches show the current value, and only switches which are held down and enabled repeat *)
Current == \A i \in {j \in Acts : cfg.act[j].en = 0} : LET a == cfg.act[i] IN
              /\ (a.k = "ud" ) => D'.A[i].last = D'.val[a.p]
              /\ (a.k = "tempo" /\ D'.tun # 1 /\ a.lab # 0 /\ D'.bpm # -1) => D'.A[i].last = D'.bpm
Repeating == \A i \in Acts : D'.A[i].on => (Enabled(D', i) /\ D'.down[SwitchOf(i)])
(* Without a switch held down, nothing is sent *)
Held == \E s \in DOMAIN D.down : D.down[s] \/ D'.down[s]
Single == \A i \in Acts : cfg.act[i].k = "ud" => cfg.act[i].rep = 0
Requests == {Request(q) : q \in {x \in ToSet(Registered) : Polled(x)}}
Orders(s) == SelectSeq(s, LAMBDA m : m \notin Requests)
(* Requests: after an update one is under way for everything shown, and never is a second one *)
Polling == /\ (D.upd + act'.dt > cfg.interval) => \A q \in ToSet(Registered) : Polled(q) => q \in D'.wait
           /\ \A q \in {x \in ToSet(Registered) : Polled(x)} :
                 Len(SelectSeq(out'.sent, LAMBDA m : m = Request(q))) = (IF q \in D'.wait /\ (q \notin D.wait \/ \E x \in ToSet(act'.msgs) : x[1] = q) THEN 1 ELSE 0)
StepOK == /\ (D.upd + act'.dt > cfg.interval) => Current /\ Repeating
          /\ ~Held => Orders(out'.sent) = <<>>
          /\ (act'.btn = <<>> /\ Single) => Orders(out'.sent) = <<>>
           /\ Polling
          /\ \A l \in DOMAIN D.lab : (D.lab[l].ov # "" /\ D'.lab[l].ov = "") => D.lab[l].t + act'.dt > D.lab[l].per
=============================================================================
