---- MODULE MCDisplay ----
EXTENDS Display
CONSTANTS Sel, Dts
B(k, r, up, a) == [k |-> k, r |-> r, up |-> up, a |-> a]
Lb(r, up, a, b, c, s, w, t, p, v, d) == [k |-> "lab", r |-> r, up |-> up, a |-> a, b |-> b, c |-> c, s |-> s, w |-> w, t |-> t, p |-> p, conv |-> v, d |-> d, sc |-> 1, ls |-> 100]
Q(f, n, m) == [f |-> f, n |-> n, m |-> m]
C(low, cuts, pr, sp, el) == [interval |-> 200, low |-> low, lim |-> 15360, cuts |-> cuts, pr |-> pr, sp |-> sp, el |-> el]
Red == <<200, 10, 10>>  Yellow == <<255, 255, 0>>
Cut4 == <<Q("remove_from_top", 40, 0), Q("remove_from_bottom", 40, 0), Q("remove_from_left", 121, 0), Q("remove_from_right", 17, 0), Q("top", 10, 0)>>
El(low) == << B("box", 1, 0, 1), Lb(1, 1, 2, Red, <<>>, 1, 60, <<"abc", "de", "fghij">>, 1, 0, <<"n/a">>), B("dot", 1, 1, 6), B("none", 1, 1, 0),
         Lb(1, 0, 3, <<>>, Yellow, 0, 0, <<"two", "words">>, 2, IF low THEN 1 ELSE 3, <<"none", "yet">>),
         Lb(2, 0, 4, Yellow, <<>>, 0, 50, <<"s2">>, 1, 0, <<>>), B("dot", 2, 0, 5), Lb(2, 0, 2, <<>>, <<>>, 0, 0, <<>>, 2, 0, <<"x">>) >>
El1 == << Lb(1, 0, 4, Red, Yellow, 2, 40, <<>>, 1, 1, <<"a">>), Lb(1, 0, 5, Yellow, <<>>, 0, 70, <<"init">>, 2, 0, <<>>), B("dot", 1, 0, 2) >>
El2 == << B("vsplit", 1, 0, 2), Lb(1, 1, 1, Red, <<>>, 1, 60, <<"abc">>, 1, 0, <<"n/a">>), B("none", 1, 1, 0), B("hsplit", 1, 1, 1), Lb(1, 4, 1, Yellow, <<>>, 0, 0, <<"x">>, 2, 0, <<>>),
          B("box", 1, 4, 1), Lb(1, 4, 3, <<>>, <<>>, 0, 0, <<"y">>, 1, 1, <<>>), B("box", 1, 1, 1), Lb(1, 8, 3, <<>>, Red, 0, 0, <<"in">>, 0, 0, <<>>), B("dot", 1, 8, 3) >>
All == << C(FALSE, Cut4, <<"num", "str">>, 1, El(FALSE)), C(TRUE, Cut4, <<"num", "str">>, 1, El(TRUE)),
          C(FALSE, <<Q("left", 9, 0), Q("bottom", 30, 0), Q("translated", 3, -4), Q("with_position", 7, 8), Q("right", 12, 0)>>, <<"num", "bpm">>, 0, El1), C(FALSE, <<Q("remove_from_top", 50, 0), Q("remove_from_left", 41, 0)>>, <<"num", "str">>, 0, El2) >>
Init == InitWith(All[Sel])
Vals(p) == CASE cfg.pr[p] = "num" -> {0, 64} [] cfg.pr[p] = "str" -> {<<>>, <<"Rig", "name">>} [] cfg.pr[p] = "bpm" -> {0, 7712}
Us == {<<>>, <<[l |-> 2, op |-> "text", v |-> <<"own", "text">>]>>, <<[l |-> CASE Sel = 3 -> 1 [] Sel = 4 -> 5 [] OTHER -> 6, op |-> "back", v |-> <<0, 0, 90>>]>>,
       <<[l |-> CASE Sel = 3 -> 2 [] Sel = 4 -> 9 [] OTHER -> 8, op |-> "tc", v |-> Red]>>, <<[l |-> 2, op |-> "tc", v |-> <<>>]>>, <<[l |-> 2, op |-> "upd", v |-> <<>>]>>}
Next == \E dt \in Dts :
    \/ \E p \in 1..2, u \in {<<>>} : \E v \in Vals(p) : Do([op |-> "tick", dt |-> dt, msgs |-> <<[p |-> p, v |-> v]>>, lost |-> FALSE, dot |-> dc, user |-> u])
    \/ Do([op |-> "tick", dt |-> 201, msgs |-> <<>>, lost |-> TRUE, dot |-> dc, user |-> <<>>])
    \/ dt > 0 /\ \E d \in {Black, <<0, 255, 0>>} : Do([op |-> "tick", dt |-> dt, msgs |-> <<>>, lost |-> FALSE, dot |-> d, user |-> <<>>])
    \/ dt = 0 /\ \E u \in Us : Do([op |-> "tick", dt |-> dt, msgs |-> <<>>, lost |-> FALSE, dot |-> dc, user |-> u])
====
