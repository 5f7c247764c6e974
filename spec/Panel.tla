------------------------------- MODULE Panel -------------------------------
(* Switches with several actions each: on/off parameters, effect slots, pagers with direct selection, custom and rotating *)
(* messages, key strokes, fixed texts; what they send, and what LEDs and labels show.                                     *)
(* cfg: np: number of LEDs; fb: set values are fed back at once; interval: update interval;                               *)
(*   pr: parameters [cc: reporting control number (-1: never reported), set: control numbers of the set messages,         *)
(*       optional sx: SysEx set message without its last two bytes (high and low 7 bits of the value)]                    *)
(*   lab: labels [t, b, c]: initial text, background, fixed text color (<<>>: automatic)                                  *)
(*   sw: switches [px: LEDs, acts: actions]; act: actions, see below (k: kind)                                            *)
(*   tun: tuner mode parameter (0: no tuner display), tpr: switches keep working in tuner mode                             *)
(* Colors are sequences of <<r, g, b>> (several: multi color); brightness in 1/1000. Values: -1 unknown.                  *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets

VARIABLES cfg,
    val,    \* last known value per parameter
    A,      \* per action: [st, cur: value evaluated last, sh, shc: state/color shown, off: disable values, seen: enabled state noticed,
            \*              t: time since push, pos: positions in message list, release list, LED colors, label colors, texts, ty: type shown]
    sw,     \* per switch: [down, con: push consumed by tuner mode, col, bri]
    leds, lab, pg, upd,
    tun,    \* tuner mode [on, pb: a switch has been pushed since, scr: tuner screen shown]
    act, out

vars == <<cfg, val, A, sw, leds, lab, pg, upd, tun, act, out>>
View == [c |-> cfg, v |-> val, a |-> A, s |-> sw, l |-> leds, b |-> lab, p |-> pg, u |-> upd, t |-> tun]
Never == -2
Cap(n, lim) == IF n > lim THEN lim + 1 ELSE n
Acts == 1..Len(cfg.act)
SwitchOf(i) == CHOOSE s \in DOMAIN cfg.sw : i \in ToSet(cfg.sw[s].acts)
Order == FlattenSeq([s \in DOMAIN cfg.sw |-> cfg.sw[s].acts])

(* ------------------------------------------------------------------------ LEDs and labels; S: working state *)
Page(S, i) == IF S.pg[i] = 0 THEN 0 ELSE cfg.act[i].pages[S.pg[i]].id
Enabled(S, i) == cfg.act[i].en = 0 \/ Page(S, cfg.act[i].en) = cfg.act[i].page

Segs(S, i) ==
    LET s == SwitchOf(i)
        n == Len(cfg.sw[s].px)
        users == SelectSeq(cfg.sw[s].acts, LAMBDA j : cfg.act[j].leds /\ Enabled(S, j))
        m == Len(users)
        x == CHOOSE q \in DOMAIN users : users[q] = i
        first == n - m + 1
    IN IF ~cfg.act[i].leds \/ ~Enabled(S, i) \/ n = 0 THEN <<>>
       ELSE IF m = 1 THEN [q \in 1..n |-> q]
       ELSE IF m < n THEN IF x = 1 THEN [q \in 1..first |-> q] ELSE <<first + x - 1>>
       ELSE IF x <= n THEN <<x>> ELSE <<>>

Dim(rgb, f) == <<(rgb[1] * f) \div 1000, (rgb[2] * f) \div 1000, (rgb[3] * f) \div 1000>>
Light(S, i, color, b) ==
    LET seg == Segs(S, i)
        s == SwitchOf(i)
        at(q) == CHOOSE j \in DOMAIN seg : seg[j] = q
        one(q) == IF Len(color) > 1 /\ Len(color) = Len(seg) THEN color[at(q)] ELSE color[(Len(color) \div 2) + 1]
        ncol == [q \in DOMAIN cfg.sw[s].px |-> IF q \in ToSet(seg) THEN one(q) ELSE S.sw[s].col[q]]
        nbri == [q \in DOMAIN cfg.sw[s].px |-> IF q \in ToSet(seg) THEN b ELSE S.sw[s].bri[q]]
    IN IF seg = <<>> THEN S
       ELSE [S EXCEPT !.sw[s].col = ncol, !.sw[s].bri = nbri,
                      !.leds = [x \in DOMAIN S.leds |-> IF \E q \in ToSet(seg) : cfg.sw[s].px[q] = x - 1
                                    THEN LET q == CHOOSE r \in ToSet(seg) : cfg.sw[s].px[r] = x - 1 IN Dim(ncol[q], nbri[q]) ELSE S.leds[x]]]

White == <<255, 255, 255>>
Contrast(b) == IF 2126 * b[1] + 7151 * b[2] + 721 * b[3] < 1400000 THEN White ELSE <<0, 0, 0>>
Text(S, i, t) == LET l == cfg.act[i].lab IN IF l = 0 THEN S ELSE [S EXCEPT !.lab[l].t = t]
Back(S, i, b) == LET l == cfg.act[i].lab IN IF l = 0 \/ S.lab[l].b = b THEN S
                 ELSE [S EXCEPT !.lab[l].b = b, !.lab[l].c = IF cfg.lab[l].c # <<>> THEN cfg.lab[l].c ELSE Contrast(b)]
TextColor(S, i, c) == LET l == cfg.act[i].lab IN IF l = 0 THEN S ELSE [S EXCEPT !.lab[l].c = c]

(* ------------------------------------------------------------------------ on/off parameters and effect slots *)
Bin(i) == cfg.act[i].k \in {"bin", "slot"}
Cat(i, v) == LET cs == cfg.act[i].cats
                 hit == {q \in DOMAIN cs : v \in ToSet(cs[q].v)}
             IN IF v # -1 /\ hit # {} THEN cs[CHOOSE q \in hit : TRUE] ELSE cfg.act[i].nocat
Shows(i) == cfg.pr[cfg.act[i].p].cc >= 0 \/ cfg.act[i].int

Matches(i, v, st) ==
    LET a == cfg.act[i] IN
    v # -1 /\ (CASE a.cmp = 0 -> v = a.ref [] a.cmp = 10 -> v > a.ref [] a.cmp = 20 -> v >= a.ref
                 [] a.cmp = 30 -> v < a.ref [] a.cmp = 40 -> v <= a.ref [] a.cmp = 999 -> st)

Evaluate(S, i, v) ==
    LET st == Matches(i, v, S.A[i].st)
        off == IF st \/ v = -1 THEN S.A[i].off
               ELSE [q \in DOMAIN S.A[i].off |-> IF cfg.act[i].voff[q] = -1 THEN v ELSE S.A[i].off[q]]
    IN [S EXCEPT !.A[i].st = st, !.A[i].off = off]

Render(S, i, color) ==
    LET a == cfg.act[i]
        on == S.A[i].st /\ Shows(i)
        S1 == Light(S, i, color, IF on THEN a.bon ELSE a.boff)
        S2 == IF a.lab = 0 THEN S1 ELSE Back(S1, i, Dim(color[1], IF on THEN a.don ELSE a.doff))
    IN IF a.txt = "" THEN S2
       ELSE Text(S2, i, IF S.A[i].st \/ ~Shows(i) \/ a.txtoff = "" THEN a.txt ELSE a.txtoff)

Clear(S, i) == [S EXCEPT !.A[i].sh = -1, !.A[i].cur = Never, !.A[i].shc = <<>>]
BinShow(S, i, known) ==
    LET v == S.val[cfg.act[i].p]
        S1 == IF v = S.A[i].cur THEN S ELSE Evaluate([S EXCEPT !.A[i].cur = v], i, IF known THEN v ELSE -1)
        color == IF cfg.act[i].k = "slot" THEN Cat(i, S.val[cfg.act[i].ty]).color ELSE cfg.act[i].color
        b == IF S1.A[i].st THEN 1 ELSE 0
    IN IF color # S1.A[i].shc \/ b # S1.A[i].sh THEN Render([S1 EXCEPT !.A[i].shc = color, !.A[i].sh = b], i, color) ELSE S1
SlotShow(S, i) ==
    LET ty == S.val[cfg.act[i].ty]
        c == Cat(i, ty)
        S1 == IF c.none THEN [S EXCEPT !.A[i].st = FALSE] ELSE S
        S2 == IF S.A[i].ty = ty THEN S1 ELSE Text(Clear([S1 EXCEPT !.A[i].ty = ty], i), i, c.txt)
    IN BinShow(S2, i, ~c.none)

(* ------------------------------------------------------------------------ pagers *)
ProxyShow(S, i) ==
    LET a == cfg.act[i] g == cfg.act[a.pager] IN
    IF i \notin S.ini \/ ~Enabled(S, i) THEN S
    ELSE Light(S, i, g.pages[a.sel].color, IF S.pg[a.pager] = a.sel THEN g.bon ELSE g.boff)
Proxies(i) == SelectSeq([q \in Acts |-> q], LAMBDA q : cfg.act[q].k = "proxy" /\ cfg.act[q].pager = i)
PagerShow(S, i) ==
    LET a == cfg.act[i]
        cur == a.pages[S.pg[i]]
        S1 == IF a.sel # 0 THEN Light(S, i, a.pages[a.sel].color, IF a.sel = S.pg[i] THEN a.bon ELSE a.boff)
              ELSE Light(S, i, cur.color, a.b)
        S2 == IF a.lab = 0 THEN S1 ELSE Back(Text(S1, i, cur.txt), i, cur.color[1])
    IN IF S.pg[i] = 0 \/ ~Enabled(S, i) THEN S ELSE FoldLeft(ProxyShow, S2, Proxies(i))

(* ------------------------------------------------------------------------ all kinds *)
At(s, n) == s[(n % Len(s)) + 1]
RotShow(S, i) ==
    LET a == cfg.act[i]
        n == S.A[i].pos
        S1 == IF a.lcols = <<>> THEN S ELSE Light(S, i, At(a.lcols, n), a.b)
        d == IF a.dcols # <<>> THEN a.dcols ELSE a.lcols
        S2 == IF a.txts = <<>> THEN S1 ELSE Text(S1, i, At(a.txts, n))
    IN IF d = <<>> \/ a.lab = 0 THEN S2 ELSE Back(S2, i, At(d, n)[1])
MsgShow(S, i) == LET a == cfg.act[i] IN Back(Text(Light(S, i, a.color, a.b), i, a.txt), i, a.color[1])
TextShow(S, i) ==
    LET a == cfg.act[i]
        S1 == Text(S, i, a.txt)
        S2 == IF a.color = <<>> THEN S1 ELSE Back(S1, i, a.color[1])
    IN IF a.tcol = <<>> THEN S2 ELSE TextColor(S2, i, a.tcol)

Show(S, i) ==
    IF cfg.act[i].k = "pager" THEN PagerShow(S, i)
    ELSE IF ~Enabled(S, i) THEN S
    ELSE CASE cfg.act[i].k = "bin" -> BinShow(S, i, TRUE) [] cfg.act[i].k = "slot" -> SlotShow(S, i) [] cfg.act[i].k = "proxy" -> ProxyShow(S, i)
           [] cfg.act[i].k = "rot" -> RotShow(S, i) [] cfg.act[i].k \in {"msg", "hid"} -> MsgShow(S, i) [] cfg.act[i].k = "text" -> TextShow(S, i)

ClearCb(S, i) == IF Bin(i) THEN [Clear(S, i) EXCEPT !.A[i].ty = -1] ELSE S
ResetAct(S, i) == IF Bin(i) THEN Show([ClearCb(S, i) EXCEPT !.A[i].st = FALSE], i) ELSE S
ResetAll(S) == FoldLeft(LAMBDA T, i : Show(ResetAct(T, i), i), S, Order)
Noticed(S, i) ==        \* update cycle
    LET e == IF Enabled(S, i) THEN 1 ELSE 0 IN
    IF S.A[i].seen = e THEN S ELSE Show(ClearCb([S EXCEPT !.A[i].seen = e], i), i)

(* Everybody displaying parameter p is told *)
RigOf(i) == IF Bin(i) /\ "rig" \in DOMAIN cfg.act[i] THEN cfg.act[i].rig ELSE 0      \* switched off by every report of this
Uses(i, p) == Bin(i) /\ (cfg.act[i].p = p \/ (cfg.act[i].k = "slot" /\ cfg.act[i].ty = p) \/ RigOf(i) = p)
Told(S, i, p) == LET S1 == Show(S, i) IN IF RigOf(i) = p /\ S.val[p] # -1 /\ S1.A[i].st THEN Show([S1 EXCEPT !.A[i].st = FALSE], i) ELSE S1
Dark(S) == [S EXCEPT !.sw = [s \in DOMAIN S.sw |-> [S.sw[s] EXCEPT !.col = [q \in DOMAIN @ |-> White], !.bri = [q \in DOMAIN @ |-> 0]]],
                     !.leds = [x \in DOMAIN S.leds |-> IF \E s \in DOMAIN cfg.sw : (x - 1) \in ToSet(cfg.sw[s].px) THEN <<0, 0, 0>> ELSE S.leds[x]]]
Tuner(S) == IF S.val[cfg.tun] = 1 THEN LET S1 == [S EXCEPT !.tun.on = TRUE, !.tun.scr = 1] IN IF cfg.tpr THEN S1 ELSE Dark(S1)
            ELSE ResetAll([S EXCEPT !.tun = [on |-> FALSE, pb |-> FALSE, scr |-> 0]])
Notify(S, p) == IF cfg.pr[p].cc < 0 THEN S
                ELSE LET S1 == FoldLeft(LAMBDA T, i : IF Uses(i, p) THEN Told(T, i, p) ELSE T, S, Order) IN IF cfg.tun = p /\ S.val[p] # -1 THEN Tuner(S1) ELSE S1

(* ------------------------------------------------------------------------ the user *)
Set(S, p, vs) ==
    LET x == cfg.pr[p]
        sysex == IF "sx" \in DOMAIN x THEN <<x.sx \o <<vs[1] \div 128, vs[1] % 128>>>> ELSE <<>>
        S1 == [S EXCEPT !.sent = @ \o [q \in DOMAIN x.set |-> <<176, x.set[q], vs[q]>>] \o sysex]
    IN IF cfg.fb THEN Notify([S1 EXCEPT !.val[p] = vs[1]], p) ELSE S1
Changed(S, i) ==
    LET a == cfg.act[i]
        vs == IF S.A[i].st THEN a.von ELSE S.A[i].off
        p == IF ~S.A[i].st /\ a.pd # 0 THEN a.pd ELSE a.p
        auto == \E q \in DOMAIN S.A[i].off : S.A[i].off[q] = -1
    IN IF (IF a.lst THEN auto ELSE \E q \in DOMAIN vs : vs[q] = -1) THEN S ELSE Set(S, p, vs)
State(S, i, b) == IF S.A[i].st = b THEN S ELSE Show(Changed([S EXCEPT !.A[i].st = b], i), i)

Turn(S, i, n) == FoldLeft(LAMBDA T, j : Show(T, j), ResetAll([S EXCEPT !.pg[i] = n]), <<i>>)

Push(S, i) ==
    LET a == cfg.act[i] IN
    CASE Bin(i) ->
           (CASE a.mode = 0 \/ a.mode = 30 -> State(S, i, TRUE)
              [] a.mode = 10 \/ a.mode = 40 -> State(S, i, FALSE)
              [] a.mode = 20 -> State(S, i, ~S.A[i].st)
              [] a.mode = 50 -> State([S EXCEPT !.A[i].t = 0], i, ~S.A[i].st)
              [] a.mode = 100 -> State([S EXCEPT !.A[i].st = FALSE], i, TRUE)
              [] OTHER -> S)
      [] a.k = "pager" -> Turn(S, i, IF a.sel # 0 THEN a.sel ELSE (S.pg[i] % Len(a.pages)) + 1)
      [] a.k = "proxy" -> Turn(S, a.pager, a.sel)
      [] a.k = "rot" -> IF a.msgs = <<>> THEN S ELSE [S EXCEPT !.sent = Append(@, At(a.msgs, S.A[i].pos))]
      [] a.k = "msg" -> [S EXCEPT !.sent = Append(@, a.msg)]
      [] a.k = "hid" -> [S EXCEPT !.keys = @ \o [q \in DOMAIN a.codes |-> <<a.codes[q]>>]]
      [] OTHER -> S
Release(S, i) ==
    LET a == cfg.act[i] IN
    CASE Bin(i) ->
           (CASE a.mode = 30 -> State(S, i, FALSE)
              [] a.mode = 40 -> State(S, i, TRUE)
              [] a.mode = 50 -> IF S.A[i].t > a.hold THEN State([S EXCEPT !.A[i].t = 0], i, ~S.A[i].st) ELSE S
              [] a.mode = 100 -> Show([S EXCEPT !.A[i].st = FALSE], i)
              [] OTHER -> S)
      [] a.k = "rot" -> RotShow([S EXCEPT !.sent = IF a.rel = <<>> THEN @ ELSE Append(@, At(a.rel, S.A[i].pos)), !.A[i].pos = @ + 1], i)
      [] a.k = "msg" -> IF a.rel = <<>> THEN S ELSE [S EXCEPT !.sent = Append(@, a.rel)]
      [] OTHER -> S

Flip(S, s) ==
    LET S1 == [S EXCEPT !.sw[s].down = ~@, !.sw[s].con = S.tun.on /\ ~cfg.tpr /\ (~S.sw[s].down \/ @)]
        down == S1.sw[s].down
        S2 == IF ~S.tun.on THEN S1
              ELSE IF down THEN [S1 EXCEPT !.tun.pb = TRUE]
              ELSE IF ~S.tun.pb THEN S1 ELSE Set([S1 EXCEPT !.tun.pb = FALSE], cfg.tun, <<0>>)
        pass == IF S.tun.on THEN cfg.tpr /\ (down \/ S.tun.pb) ELSE down \/ ~S.sw[s].con
    IN IF ~pass THEN S2
       ELSE FoldLeft(LAMBDA T, i : IF ~Enabled(T, i) THEN T ELSE IF down THEN Push(T, i) ELSE Release(T, i), S2, cfg.sw[s].acts)

(* ------------------------------------------------------------------------ the device *)
Params == [p \in 1..Len(cfg.pr) |-> p]
Report(S, m) == FoldLeft(LAMBDA T, p : IF cfg.pr[p].cc = m[1] /\ (cfg.tun = p \/ \E i \in Acts : Uses(i, p)) THEN Notify([T EXCEPT !.val[p] = m[2]], p) ELSE T, S, S.reg)
Lost(S) == FoldLeft(LAMBDA T, p : Notify([T EXCEPT !.val[p] = -1], p), S, S.reg)

(* parameters reported to anybody, in order of registration *)
Reg == LET all == FlattenSeq([q \in DOMAIN Order |-> LET a == cfg.act[Order[q]] IN
                        IF a.k = "slot" THEN <<a.p, a.ty>> ELSE IF a.k # "bin" THEN <<>> ELSE IF RigOf(Order[q]) # 0 THEN <<a.p, a.rig>> ELSE <<a.p>>])
           RECURSIVE Uniq(_, _)
           Uniq(s, acc) == IF s = <<>> THEN acc ELSE Uniq(Tail(s), IF Head(s) \in ToSet(acc) \/ cfg.pr[Head(s)].cc < 0 THEN acc ELSE Append(acc, Head(s)))
       IN Uniq(IF cfg.tun = 0 THEN all ELSE Append(all, cfg.tun), <<>>)

(* rotating positions: all lists repeat after their common period *)
Period(i) == LET a == cfg.act[i]
                 L(s) == IF s = <<>> THEN 1 ELSE Len(s)
             IN L(a.msgs) * L(a.rel) * L(a.lcols) * L(a.dcols) * L(a.txts)

Work == [val |-> val, A |-> A, sw |-> sw, leds |-> leds, lab |-> lab, pg |-> pg, sent |-> <<>>, keys |-> <<>>, ini |-> Acts, reg |-> Reg, tun |-> tun]
Obs(S) == [exc |-> "", scr |-> S.tun.scr, sent |-> S.sent, keys |-> S.keys, leds |-> S.leds, lab |-> [l \in DOMAIN S.lab |-> <<S.lab[l].t, S.lab[l].c, S.lab[l].b>>]]

Tick(dt, ss, msgs, lost) ==
    LET S0 == [Work EXCEPT !.A = [i \in DOMAIN A |-> IF Bin(i) THEN [A[i] EXCEPT !.t = Cap(@ + dt, cfg.act[i].hold)] ELSE A[i]]]
        S1 == FoldLeft(Flip, S0, ss)
        S2 == FoldLeft(Report, S1, msgs)
        cyc == upd + dt > cfg.interval
        S3 == IF cyc THEN FoldLeft(Noticed, IF lost THEN Lost(S2) ELSE S2, Order) ELSE S2
    IN /\ val' = S3.val /\ sw' = S3.sw /\ leds' = S3.leds /\ lab' = S3.lab /\ pg' = S3.pg /\ tun' = S3.tun
       /\ A' = [i \in DOMAIN A |-> IF cfg.act[i].k = "rot" THEN [S3.A[i] EXCEPT !.pos = @ % Period(i)] ELSE S3.A[i]]
       /\ upd' = IF cyc THEN 0 ELSE upd + dt
       /\ out' = Obs(S3)
       /\ UNCHANGED cfg

(* Start: all switches are set up one after another *)
Start(S, i) == Show([S EXCEPT !.ini = @ \cup {i}, !.pg[i] = IF cfg.act[i].k = "pager" THEN 1 ELSE 0], i)
InitWith(c) ==
    /\ cfg = c
    /\ LET lit(n) == [q \in 1..n |-> <<127, 127, 127>>]
           S0 == [val |-> [p \in DOMAIN c.pr |-> -1],
                  A |-> [i \in DOMAIN c.act |-> [st |-> FALSE, cur |-> Never, sh |-> -1, shc |-> <<>>, seen |-> -1, pos |-> 0, ty |-> -1,
                                                 off |-> IF c.act[i].k \in {"bin", "slot"} THEN c.act[i].voff ELSE <<>>,
                                                 t |-> IF c.act[i].k \in {"bin", "slot"} THEN Cap(1000, c.act[i].hold) ELSE 0]],
                  sw |-> [s \in DOMAIN c.sw |-> [down |-> FALSE, con |-> FALSE, col |-> [q \in DOMAIN c.sw[s].px |-> White], bri |-> [q \in DOMAIN c.sw[s].px |-> 500]]],
                  leds |-> [x \in 1..c.np |-> IF \E s \in DOMAIN c.sw : (x - 1) \in ToSet(c.sw[s].px) THEN <<127, 127, 127>> ELSE <<0, 0, 0>>],
                  lab |-> [l \in DOMAIN c.lab |-> [t |-> c.lab[l].t, b |-> c.lab[l].b, c |-> IF c.lab[l].c # <<>> THEN c.lab[l].c ELSE Contrast(c.lab[l].b)]],
                  pg |-> [i \in DOMAIN c.act |-> 0], sent |-> <<>>, keys |-> <<>>, ini |-> {}, reg |-> <<>>, tun |-> [on |-> FALSE, pb |-> FALSE, scr |-> 0]]
           S1 == FoldLeft(Start, S0, FlattenSeq([s \in DOMAIN c.sw |-> c.sw[s].acts]))
       IN /\ val = S1.val /\ A = S1.A /\ sw = S1.sw /\ leds = S1.leds /\ lab = S1.lab /\ pg = S1.pg /\ tun = S1.tun
          /\ out = Obs(S1)
    /\ upd = Cap(1000, c.interval) /\ act = [op |-> "init"]

Do(a) == act' = a /\ Tick(a.dt, a.sw, a.msgs, a.lost)

-----------------------------------------------------------------------------
Users(s) == {i \in ToSet(cfg.sw[s].acts) : cfg.act[i].leds /\ Enabled(Work, i)}
(* LED segments: disjoint, in order, and complete if one action uses them alone *)
Segments ==
    \A s \in DOMAIN cfg.sw :
        /\ \A i, j \in Users(s) : i # j => ToSet(Segs(Work, i)) \cap ToSet(Segs(Work, j)) = {}
        /\ Cardinality(Users(s)) > 0 => UNION {ToSet(Segs(Work, i)) : i \in Users(s)} = 1..(IF Cardinality(Users(s)) >= Len(cfg.sw[s].px)
                THEN Len(cfg.sw[s].px) ELSE Len(cfg.sw[s].px))
OnePage == \A i \in Acts : cfg.act[i].k = "pager" => pg[i] \in DOMAIN cfg.act[i].pages
(* Tuner mode: the tuner screen is shown; nothing is sent except the end of tuner mode unless switches keep working *)
InTuner == (tun.scr = 1) = tun.on /\ (cfg.tun = 0 => ~tun.on)
(* What is shown is what the actions have to show: showing everything once more from scratch changes no LED *)
Steady == upd = 0 /\ ~tun.on => LET again == FoldLeft(LAMBDA T, i : Show(IF Bin(i) THEN [T EXCEPT !.A[i].sh = -1] ELSE T, i), Work, Order)
                     IN again.leds = leds
(* Only known values switch an effect slot or parameter display on unless the user did *)
Safety == Segments /\ OnePage /\ InTuner /\ Steady
(* Disabled actions do not send, and nobody sends without the user *)
StepOK == /\ (act'.sw = <<>>) => out'.sent = <<>> /\ out'.keys = <<>>
          /\ (tun.on /\ ~cfg.tpr /\ Len(act'.sw) <= 1) => /\ \A q \in DOMAIN out'.sent : out'.sent[q] = <<176, cfg.pr[cfg.tun].set[1], 0>>
                                                     /\ Len(out'.sent) <= 1 /\ out'.keys = <<>>
          /\ \A x \in DOMAIN leds : (leds'[x] # leds[x]) => \E s \in DOMAIN cfg.sw : (x - 1) \in ToSet(cfg.sw[s].px)
=============================================================================
