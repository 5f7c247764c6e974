------------------------------- MODULE Display -------------------------------
(* The screen: areas cut from the display, labels with background, wrapped text and automatic text color, labels showing       *)
(* parameters, the connection state dot, several screens chosen by a parameter, and the low memory warning.                  *)
(* cfg: interval: update interval; low: too little memory at start; cuts: how the areas are made (see Areas);                 *)
(*      pr: kind of the parameters: "num", "str" or "bpm"; sp: parameter which selects the screen (0: there is only one);    *)
(*      el: elements in drawing order [k: "box", "lab", "dot", or "none"; r: screen 1 or 2; up: containing box or 0; a: area; *)
(*        for labels b: background color or <<>>; c: text color or <<>>; s: stroke; w: maximum text width (0: no wrapping);  *)
(*        t: initial text (list of words); p: shown parameter or 0; conv: conversion; d: default text; sc: scale; ls: line  *)
(*        spacing in 1/100]                                                                                                  *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, FiniteSetsExt, TLC

VARIABLES cfg, val, L, D, root, seen, upd, lostp, dc, lowm, act, out
(* val: per parameter <<>> or <<value>>; L: per element the text (words), colors; D: color of dots; root: screen shown;       *)
(* seen: screens which have been shown; upd: time since the last update; lostp: loss not yet noticed; dc: color of the       *)
(* connection state                                                                                                           *)

vars == <<cfg, val, L, D, root, seen, upd, lostp, dc, lowm, act, out>>
View == [c |-> cfg, v |-> val, l |-> L, d |-> D, r |-> root, s |-> seen, u |-> upd, lo |-> lostp, dc |-> dc, lm |-> lowm]

Cap(n, i) == IF n > i + 1 THEN i + 1 ELSE n
---------------------------------------------------------------------------
(* Areas *)
(* Rectangles <<x, y, w, h>>. A cut [f, n, m] takes something from the remaining rectangle (the display at first): *)
Part(R, q) ==
    CASE q.f \in {"remove_from_top", "top"} -> <<R[1], R[2], R[3], q.n>>
      [] q.f \in {"remove_from_bottom", "bottom"} -> <<R[1], R[2] + R[4] - q.n, R[3], q.n>>
      [] q.f \in {"remove_from_left", "left"} -> <<R[1], R[2], q.n, R[4]>>
      [] q.f \in {"remove_from_right", "right"} -> <<R[1] + R[3] - q.n, R[2], q.n, R[4]>>
      [] q.f = "translated" -> <<R[1] + q.n, R[2] + q.m, R[3], R[4]>>
      [] q.f = "with_position" -> <<q.n, q.m, R[3], R[4]>>
Rest(R, q) ==
    CASE q.f = "remove_from_top" -> <<R[1], R[2] + q.n, R[3], R[4] - q.n>>
      [] q.f = "remove_from_bottom" -> <<R[1], R[2], R[3], R[4] - q.n>>
      [] q.f = "remove_from_left" -> <<R[1] + q.n, R[2], R[3] - q.n, R[4]>>
      [] q.f = "remove_from_right" -> <<R[1], R[2], R[3] - q.n, R[4]>>
      [] OTHER -> R
(* Areas: the remaining rectangle first, followed by the parts in order *)
Areas(c) ==
    LET f == FoldLeft(LAMBDA S, q : [r |-> Rest(S.r, q), a |-> Append(S.a, Part(S.r, q))], [r |-> <<0, 0, 240, 240>>, a |-> <<>>], c.cuts)
    IN TLCEval(<<f.r>> \o f.a)
---------------------------------------------------------------------------
(* Texts are lists of words *)
LowText == <<"Low", "Memory!">>
RECURSIVE Sum(_)
Sum(q) == IF q = <<>> THEN 0 ELSE Len(Head(q)) + Sum(Tail(q))
(* Lines: as many words as fit, 10 pixels per character (the font of the simulated display) *)
Lines(q, w) ==
    FoldLeft(LAMBDA T, x : LET n == Len(T) l == T[n] IN
                           IF n = 1 /\ l = <<>> THEN <<<<x>>>>
                           ELSE IF w > 0 /\ 10 * (Sum(l) + Len(l) + Len(x)) > w THEN Append(T, <<x>>) ELSE [T EXCEPT ![n] = Append(l, x)],
             <<<<>>>>, q)
RECURSIVE Join(_, _)
Join(q, s) == IF q = <<>> THEN "" ELSE IF Len(q) = 1 THEN Head(q) ELSE Head(q) \o s \o Join(Tail(q), s)
Render(q, w) == LET T == Lines(q, w) IN Join([i \in 1..Len(T) |-> Join(T[i], " ")], "\n")

(* Shown text of a parameter *)
Bpm(v) == LET q == v \div 64 r == v % 64 IN ToString(IF r < 32 \/ (r = 32 /\ q % 2 = 0) THEN q ELSE q + 1)
Default(e, v) == IF v = <<>> THEN e.d ELSE IF cfg.pr[e.p] = "str" THEN v[1] ELSE <<ToString(v[1])>>
TextOf(e, v) ==
    CASE cfg.pr[e.p] = "bpm" -> (IF v = <<>> THEN <<>> ELSE <<Bpm(v[1]), "bpm">>)
      [] cfg.pr[e.p] # "bpm" /\ e.conv = 1 /\ v # <<>> -> Default(e, v) \o <<"dB">>
      [] cfg.pr[e.p] # "bpm" /\ e.conv = 3 -> (IF v = <<>> THEN <<"-">> ELSE Default(e, v))
      [] OTHER -> Default(e, v)

White == <<255, 255, 255>>
Black == <<0, 0, 0>>
Contrast(b) == IF b = <<>> \/ 2126 * b[1] + 7151 * b[2] + 721 * b[3] < 1400000 THEN White ELSE Black
Own(e, b, c) == IF c # <<>> THEN c ELSE Contrast(b)

---------------------------------------------------------------------------
E == cfg.el
On(S, i) == E[i].k # "none" /\ E[i].r = S.root
Seen(S, i) == E[i].r \in S.seen
(* Setting the text of label i. Once it has been shown, the warning is shown instead in case. *)
SetText(S, i, t) == [S EXCEPT !.L[i].t = IF S.low /\ Seen(S, i) THEN LowText ELSE t]
Refresh(S, i) == IF E[i].p = 0 THEN S ELSE SetText(S, i, TextOf(E[i], S.val[E[i].p]))
Labels == [i \in 1..Len(E) |-> i]
ForLabels(S, P(_, _), F(_, _)) == FoldLeft(LAMBDA T, i : IF E[i].k = "lab" /\ P(T, i) THEN F(T, i) ELSE T, S, Labels)
(* Somebody listens to parameter p *)
Known(S, p) == p = cfg.sp \/ \E i \in 1..Len(E) : E[i].k = "lab" /\ E[i].p = p /\ Seen(S, i)

(* Showing a screen for the first time *)
Show(S, r) ==
    IF r \in S.seen THEN [S EXCEPT !.root = r]
    ELSE LET T == [S EXCEPT !.root = r, !.seen = @ \cup {r}]
         IN IF S.low THEN ForLabels(T, LAMBDA X, i : E[i].r = r, LAMBDA X, i : SetText(X, i, X.L[i].t)) ELSE T

(* Parameter p is reported with value v *)
Report(S, m) ==
    LET p == m.p IN
    IF ~Known(S, p) THEN S
    ELSE LET T == [S EXCEPT !.val[p] = <<m.v>>]
             U == IF p = cfg.sp THEN Show(T, IF m.v >= 64 THEN 2 ELSE 1) ELSE T
         IN ForLabels(U, LAMBDA X, i : E[i].p = p /\ Seen(X, i), Refresh)

(* The connection has been lost: nothing is known anymore *)
Lose(S) ==
    LET T == [S EXCEPT !.val = [p \in DOMAIN @ |-> IF Known(S, p) THEN <<>> ELSE @[p]], !.lostp = FALSE]
    IN ForLabels(T, LAMBDA X, i : E[i].p # 0 /\ Seen(X, i), Refresh)

(* What the configuration's own code may do with a label: [l, op: "text", "back", "tc", "upd", v] *)
User(S, u) ==
    CASE u.op = "text" -> SetText(S, u.l, u.v)
      [] u.op = "back" -> (IF S.L[u.l].b = u.v THEN S ELSE [S EXCEPT !.L[u.l].b = u.v, !.L[u.l].c = Own(E[u.l], u.v, E[u.l].c)])
      [] u.op = "tc" -> [S EXCEPT !.L[u.l].c = Own(E[u.l], S.L[u.l].b, u.v)]
      [] u.op = "upd" -> Refresh(S, u.l)

(* Area of an element: the one it has been given, or its slot if it is in a split container. The slots share the area of the container
   equally (along its direction), rounded down; empty entries do not take space. *)
Splits == {"hsplit", "vsplit"}
Slots(p) == SelectSeq([i \in 1..Len(E) |-> i], LAMBDA j : E[j].up = p /\ E[j].k # "none")
RECURSIVE Area(_, _)
Area(A, i) ==
    LET p == E[i].up IN
    IF E[i].k = "none" THEN <<0, 0, 0, 0>>
    ELSE IF p = 0 \/ ~(E[p].k \in Splits) THEN A[E[i].a]
    ELSE LET B == Area(A, p) n == Len(Slots(p)) q == CHOOSE j \in 1..n : Slots(p)[j] = i
         IN IF E[p].k = "hsplit" THEN <<B[1] + (q - 1) * (B[3] \div n), B[2], B[3] \div n, B[4]>>
            ELSE <<B[1], B[2] + (q - 1) * (B[4] \div n), B[3], B[4] \div n>>

(* The screen, in drawing order *)
Rects(S) ==
    LET A == Areas(cfg) IN
    FoldLeft(LAMBDA q, i :
                LET e == E[i] a == Area(A, i) IN
                IF ~On(S, i) THEN q
                ELSE IF e.k = "dot" THEN Append(q, [r |-> <<a[1] + a[3] - 6, a[2] + 2, 4, 4>>, f |-> S.D[i]])
                ELSE IF e.k = "lab" /\ e.b # <<>> THEN Append(q, [r |-> <<a[1] + e.s, a[2] + e.s, a[3] - 2 * e.s, a[4] - 2 * e.s>>, f |-> S.L[i].b])
                ELSE q, <<>>, Labels)
Texts(S) ==
    LET A == Areas(cfg) IN
    FoldLeft(LAMBDA q, i :
                LET e == E[i] IN
                IF On(S, i) /\ e.k = "lab"
                THEN LET a == Area(A, i) IN Append(q, [t |-> Render(S.L[i].t, e.w), c |-> S.L[i].c, p |-> <<a[1] + a[3] \div 2, a[2] + a[4] \div 2>>, sc |-> e.sc, ls |-> e.ls])
                ELSE q, <<>>, Labels)
Obs(S) == [exc |-> "", rects |-> TLCEval(Rects(S)), texts |-> TLCEval(Texts(S))]

InitWith(c) ==
    /\ cfg = c
    /\ val = [p \in 1..Len(c.pr) |-> <<>>]
    /\ L = TLCEval([i \in 1..Len(c.el) |-> IF c.el[i].k = "lab" THEN [t |-> c.el[i].t, b |-> c.el[i].b, c |-> Own(c.el[i], c.el[i].b, c.el[i].c)]
                                          ELSE [t |-> <<>>, b |-> <<>>, c |-> <<>>]])
    /\ D = [i \in 1..Len(c.el) |-> Black]
    /\ root = 1 /\ seen = {1} /\ upd = Cap(1000, c.interval) /\ lostp = FALSE /\ dc = Black
    /\ lowm = c.low
    /\ act = [op |-> "init"]
    /\ out = Obs([L |-> L, D |-> D, root |-> 1])

(* a: [dt: time passed, msgs: reported parameters, lost: the connection is lost, dot: color of the connection state, user] *)
Do(a) ==
    LET due == upd + a.dt > cfg.interval
        S0 == [val |-> val, L |-> L, D |-> D, root |-> root, seen |-> seen, lostp |-> lostp \/ a.lost, low |-> lowm]
        S1 == FoldLeft(Report, S0, a.msgs)
        S2 == IF due THEN (IF S1.lostp THEN Lose(S1) ELSE S1) ELSE S1
        S3 == IF due THEN [S2 EXCEPT !.D = [i \in DOMAIN @ |-> IF E[i].k = "dot" /\ E[i].r = S2.root THEN a.dot ELSE @[i]]] ELSE S2
        S4 == FoldLeft(User, S3, a.user)
    IN
    /\ val' = TLCEval(S4.val) /\ L' = TLCEval(S4.L) /\ D' = TLCEval(S4.D) /\ root' = S4.root /\ seen' = S4.seen /\ lostp' = S4.lostp
    /\ upd' = IF due THEN 0 ELSE Cap(upd + a.dt, cfg.interval)
    /\ dc' = a.dot
    /\ act' = a
    /\ out' = Obs(S4)
    /\ UNCHANGED <<cfg, lowm>>
---------------------------------------------------------------------------
(* Cutting: the parts cut off and the rest never overlap and fill the display *)
Cuts(c) == \A q \in ToSet(c.cuts) : q.f \in {"remove_from_top", "remove_from_bottom", "remove_from_left", "remove_from_right"}
Disjoint(a, b) == a[1] + a[3] <= b[1] \/ b[1] + b[3] <= a[1] \/ a[2] + a[4] <= b[2] \/ b[2] + b[4] <= a[2]
Tiling == Cuts(cfg) =>
    LET A == Areas(cfg) IN
    /\ \A i, j \in 1..Len(A) : i < j => Disjoint(A[i], A[j])
    /\ FoldLeft(LAMBDA n, r : n + r[3] * r[4], 0, A) = 240 * 240
(* Lines are never longer than allowed, except for single words *)
Wrapped == \A i \in 1..Len(E) : E[i].k = "lab" /\ E[i].w > 0 => \A l \in ToSet(Lines(L[i].t, E[i].w)) : Len(l) > 1 => 10 * (Sum(l) + Len(l) - 1) <= E[i].w
(* Low memory never shows anything else on labels changed since *)
Safety == Tiling /\ Wrapped
(* Without user code, a label which shows a parameter changes only to the text of its current value *)
StepOK == act'.user = <<>> =>
    \A i \in 1..Len(E) : (E[i].k = "lab" /\ L'[i].t # L[i].t) =>
        L'[i].t = LowText \/ (E[i].p # 0 /\ L'[i].t = TextOf(E[i], val'[E[i].p]))
===============================================================================
