---- MODULE MCPanel ----
EXTENDS Panel, TLC
CONSTANTS Sel, Dts, Vals
W == <<<<255, 255, 255>>>> R == <<<<255, 0, 0>>>> G == <<<<0, 255, 0>>>> B == <<<<0, 0, 255>>>>
Bn(p, mode, von, voff, lst, ref, cmp, lb, en, page, ld) ==
    [k |-> "bin", p |-> p, pd |-> 0, mode |-> mode, hold |-> 600, von |-> von, voff |-> voff, lst |-> lst, ref |-> ref, refdef |-> FALSE, cmp |-> cmp, txt |-> "on", txtoff |-> "off",
     color |-> IF en = 0 THEN W ELSE <<<<0, 255, 255>>>>, bon |-> 300, boff |-> 20, don |-> 1000, doff |-> 200, int |-> FALSE, factory |-> FALSE, leds |-> ld, lab |-> lb, b |-> 0, en |-> en, page |-> page, tunact |-> FALSE]
Tnr(p) == [Bn(p, 50, <<1>>, <<0>>, FALSE, 1, 0, 0, 0, 0, TRUE) EXCEPT !.txt = "Tuner", !.txtoff = "", !.tunact = TRUE]
Pgr(ids, sel, lb) == [k |-> "pager", pages |-> [q \in DOMAIN ids |-> [id |-> ids[q], color |-> IF q = 1 THEN R ELSE IF q = 2 THEN G ELSE B, txt |-> IF q = 1 THEN "P1" ELSE IF q = 2 THEN "P2" ELSE "P3"]],
                      sel |-> sel, bon |-> 500, boff |-> 20, leds |-> TRUE, lab |-> lb, b |-> 150, en |-> 0, page |-> 0]
Prx(g, sel) == [k |-> "proxy", pager |-> g, sel |-> sel, leds |-> TRUE, lab |-> 0, b |-> 0, en |-> 0, page |-> 0]
Slt(p, ty, lb, en, page) ==
    [k |-> "slot", p |-> p, ty |-> ty, mode |-> 20, hold |-> 600, von |-> <<1>>, voff |-> <<0>>, lst |-> FALSE, ref |-> 1, cmp |-> 20, txt |-> "", txtoff |-> "", bon |-> 300, boff |-> 20, don |-> 1000, doff |-> 200,
     int |-> FALSE, pd |-> 0, cats |-> <<[v |-> <<0>>, none |-> TRUE, color |-> W, txt |-> "-"], [v |-> <<1>>, none |-> FALSE, color |-> R, txt |-> "T1"]>>,
     nocat |-> [none |-> TRUE, color |-> G, txt |-> "?"], leds |-> TRUE, lab |-> lb, b |-> 0, en |-> en, page |-> page]
Msg(m, en, page) == [k |-> "msg", msg |-> <<176, m, 1>>, rel |-> <<176, m, 0>>, txt |-> "m", color |-> B, leds |-> TRUE, lab |-> 0, b |-> 150, en |-> en, page |-> page]
Rot(lb, en, page) == [k |-> "rot", msgs |-> <<<<192, 1>>, <<192, 2>>>>, rel |-> <<<<192, 9>>, <<192, 8>>, <<192, 7>>>>, lcols |-> <<R, G>>, dcols |-> <<>>, txts |-> <<"r1", "r2">>, leds |-> TRUE, lab |-> lb, b |-> 150, en |-> en, page |-> page]
Txt == [k |-> "text", txt |-> "fix", color |-> G, tcol |-> <<255, 0, 0>>, leds |-> FALSE, lab |-> 1, b |-> 0, en |-> 0, page |-> 0]
Hid == [k |-> "hid", codes |-> <<4, 9>>, txt |-> "h", color |-> R, leds |-> TRUE, lab |-> 0, b |-> 150, en |-> 0, page |-> 0]
P(cc, s) == [cc |-> cc, set |-> s]
K(p, key) == [cc |-> p.cc, set |-> p.set, km |-> key]
X(page, ad, rep, key) == [cc |-> IF rep THEN 1000 + 128 * page + ad ELSE -1, set |-> <<>>, sx |-> <<240, 0, 32, 51, 2, 127, 1, 0, page, ad>>, km |-> key]
Kmp(p, mode, von, voff, cmp, t, color, fac, rig) ==
    [Bn(p, mode, von, voff, FALSE, von[1], cmp, 1, 0, 0, TRUE) EXCEPT !.txt = t, !.txtoff = "", !.color = <<color>>, !.int = (rig # 0)] @@ [fac |-> fac, rig |-> rig]
DimC(c, b) == <<[x \in 1..3 |-> (c[x] * b) \div 1000]>>
Boo(nm, p1, p2, t, c, num, ix, lb, en, page) ==
    [k |-> "rot", msgs |-> IF ix = 0 THEN <<<<207, p1>>, <<207, p2>>>> ELSE <<>>, rel |-> <<>>, lcols |-> IF num = 1 \/ ix = 1 THEN <<DimC(c, 300), DimC(c, 20)>> ELSE <<DimC(c, 20), DimC(c, 300)>>,
     dcols |-> IF ix = 0 THEN <<<<c>>>> ELSE <<>>, txts |-> IF ix = 0 THEN <<t>> ELSE <<>>, leds |-> TRUE, lab |-> lb, b |-> 1000, en |-> en, page |-> page, fac |-> <<nm, num, ix, 300, 20, <<>>, "">>]
L == [t |-> "x", b |-> <<0, 0, 255>>, c |-> <<>>]
S(px, acts) == [px |-> px, acts |-> acts, nest |-> FALSE]
Tun(c, p, t) == [c EXCEPT !.tun = p, !.tpr = t]
C(fb, pr, lb, s, a, np) == [np |-> np, fb |-> fb, interval |-> 200, tun |-> 0, tpr |-> FALSE, pr |-> pr, lab |-> lb, sw |-> s, act |-> a]
All4 == << C(FALSE, <<P(10, <<20>>)>>, <<L>>, <<S(<<0, 1>>, <<1>>)>>, <<Bn(1, 20, <<5>>, <<-1>>, FALSE, 5, 20, 1, 0, 0, TRUE)>>, 2),
           C(TRUE, <<P(10, <<20>>)>>, <<L>>, <<S(<<0>>, <<1>>), S(<<1>>, <<2>>)>>, <<Bn(1, 50, <<5>>, <<0>>, FALSE, 5, 0, 1, 0, 0, TRUE), Bn(1, 100, <<9>>, <<-1>>, FALSE, 4, 10, 0, 0, 0, TRUE)>>, 2),
           C(FALSE, <<P(10, <<20, 21>>)>>, <<L>>, <<S(<<0>>, <<1, 2>>)>>, <<Bn(1, 20, <<5, 6>>, <<-1, 3>>, TRUE, 5, 30, 1, 0, 0, TRUE), Bn(1, 30, <<5, 7>>, <<0, 1>>, TRUE, 5, 40, 0, 0, 0, FALSE)>>, 1),
           \* 4, 5: paging
           C(TRUE, <<P(10, <<20>>), P(11, <<21>>)>>, <<L>>, <<S(<<0, 1, 2>>, <<1, 2>>), S(<<3>>, <<3, 4>>)>>,
             <<Pgr(<<1, 2, 3>>, 0, 0), Bn(1, 20, <<1>>, <<0>>, FALSE, 1, 20, 1, 1, 1, TRUE), Bn(2, 20, <<1>>, <<0>>, FALSE, 1, 20, 1, 1, 2, TRUE), Msg(6, 1, 3)>>, 4),
           C(FALSE, <<P(10, <<20>>)>>, <<L>>, <<S(<<0>>, <<1>>), S(<<1, 2>>, <<2, 3>>), S(<<3>>, <<4>>)>>,
             <<Pgr(<<1, 2>>, 1, 1), Prx(1, 2), Bn(1, 20, <<1>>, <<0>>, FALSE, 1, 20, 0, 1, 1, TRUE), Msg(7, 1, 2)>>, 4),
           \* 6, 7: LED segments
           C(TRUE, <<P(10, <<20>>)>>, <<>>, <<S(<<3, 4, 5>>, <<1, 2, 3>>), S(<<0, 1>>, <<4>>)>>,
             <<Bn(1, 20, <<1>>, <<0>>, FALSE, 1, 20, 0, 0, 0, TRUE), Rot(0, 4, 1), Msg(7, 4, 2), Pgr(<<1, 2>>, 0, 0)>>, 6),
           C(TRUE, <<P(10, <<20>>)>>, <<>>, <<S(<<0, 1>>, <<1, 2, 3, 4>>)>>,
             <<Pgr(<<1, 2>>, 0, 0), Bn(1, 20, <<1>>, <<0>>, FALSE, 1, 20, 0, 1, 1, TRUE), Hid, Bn(1, 50, <<1>>, <<0>>, FALSE, 1, 20, 0, 0, 0, TRUE)>>, 2),
           \* 8, 9: effect slots
           C(FALSE, <<P(10, <<20>>), P(11, <<>>)>>, <<L>>, <<S(<<0, 1>>, <<1>>)>>, <<Slt(1, 2, 1, 0, 0)>>, 2),
           C(TRUE, <<P(10, <<20>>), P(11, <<>>)>>, <<L>>, <<S(<<0, 1>>, <<1, 2>>), S(<<2>>, <<3>>)>>, <<Slt(1, 2, 1, 3, 1), Slt(1, 2, 1, 3, 2), Pgr(<<1, 2>>, 0, 0)>>, 3),
           \* 10, 11: messages
           C(FALSE, <<>>, <<L>>, <<S(<<0, 1>>, <<1, 2>>)>>, <<Rot(1, 0, 0), Msg(5, 0, 0)>>, 2),
           C(FALSE, <<>>, <<L>>, <<S(<<0, 1>>, <<1, 2, 3>>), S(<<2>>, <<4>>)>>, <<Rot(1, 4, 1), Txt, Hid, Pgr(<<1, 2>>, 0, 0)>>, 3),
           \* 12, 13, 14: tuner mode
           Tun(C(FALSE, <<P(200, <<31>>)>>, <<L>>, <<S(<<0, 1>>, <<1, 2>>), S(<<2>>, <<3>>)>>, <<Tnr(1), Msg(5, 0, 0), Msg(6, 0, 0)>>, 3), 1, FALSE),
           Tun(C(TRUE, <<P(200, <<31>>), P(10, <<20>>)>>, <<L>>, <<S(<<0>>, <<1, 2>>), S(<<1, 2>>, <<3>>)>>, <<Tnr(1), Msg(5, 0, 0), Bn(2, 20, <<5>>, <<0>>, FALSE, 5, 20, 1, 0, 0, TRUE)>>, 3), 1, TRUE),
           Tun(C(FALSE, <<P(200, <<31>>), P(10, <<20>>)>>, <<L>>, <<S(<<0>>, <<1>>), S(<<1, 2>>, <<2, 3>>)>>,
             <<Pgr(<<1, 2>>, 0, 0), Bn(2, 20, <<5>>, <<0>>, FALSE, 5, 20, 1, 1, 1, TRUE), Msg(9, 1, 2)>>, 3), 1, FALSE),
           \* 15, 16: Kemper actions: effect button, fixed effect, looper; rig volume boost, amp
           C(TRUE, <<K(P(-1, <<76>>), <<"BUTTON", 2>>), K(P(250, <<>>), <<"RIG">>), X(5, 11, TRUE, <<"FIXED", 2>>), X(125, 88, FALSE, <<"LOOPER", "LOOPER_REC_PLAY_OVERDUB">>)>>, <<L>>,
             <<S(<<0>>, <<1>>), S(<<1>>, <<2>>), S(<<2>>, <<3>>)>>,
             <<Kmp(1, 20, <<1>>, <<0>>, 999, "FX II", <<100, 255, 100>>, <<"BUTTON", 2>>, 2), Kmp(3, 20, <<1>>, <<0>>, 20, "Comp", <<0, 0, 255>>, <<"FIXED", 2>>, 0),
               Kmp(4, 30, <<1>>, <<0>>, 20, "Rec", <<255, 0, 0>>, <<"LOOPER", "LOOPER_REC_PLAY_OVERDUB">>, 0)>>, 3),
           C(FALSE, <<X(4, 1, TRUE, <<"BOOST">>), X(10, 2, TRUE, <<"AMP">>)>>, <<L>>, <<S(<<0, 1>>, <<1>>), S(<<2>>, <<2>>)>>,
             <<Kmp(1, 20, <<10239>>, <<-1>>, 20, "RigBoost", <<255, 125, 70>>, <<"BOOST", 625, TRUE>>, 0),
               [Kmp(2, 20, <<1>>, <<0>>, 20, "amp", <<255, 255, 255>>, <<"STATE">>, 0) EXCEPT !.factory = TRUE]>>, 3),
           \* 17: Boomerang
           C(FALSE, <<>>, <<L>>, <<S(<<0, 1>>, <<1, 2>>), S(<<2>>, <<3, 4>>), S(<<3>>, <<5>>)>>,
             <<Boo("ONCE", 10, 18, "Once", <<100, 255, 100>>, 2, 0, 1, 5, 1), Boo("ONCE", 10, 18, "Once", <<100, 255, 100>>, 2, 1, 0, 5, 1),
               Boo("PANIC", 11, 40, "PANIC", <<255, 0, 0>>, 1, 0, 1, 5, 2), Boo("COPY", 1, 4, "Copy", <<0, 0, 255>>, 1, 0, 0, 0, 0), Pgr(<<1, 2>>, 0, 0)>>, 4) >>
Init == InitWith(All4[Sel])
Ccs == {cfg.pr[p].cc : p \in DOMAIN cfg.pr} \ {-1}
T(dt, s, m, l) == Do([op |-> "tick", dt |-> dt, sw |-> s, msgs |-> m, lost |-> l])
Next == \/ \E dt \in Dts : T(dt, <<>>, <<>>, FALSE)
        \/ \E s \in DOMAIN cfg.sw : T(0, <<s>>, <<>>, FALSE)
        \/ \E c \in Ccs : \E v \in Vals : T(0, <<>>, <<<<c, v>>>>, FALSE)
        \/ (Ccs # {} /\ T(201, <<>>, <<>>, TRUE))
        \/ (\E i \in Acts : Bin(i) /\ cfg.act[i].mode = 50) /\ T(601, <<>>, <<>>, FALSE)
====
