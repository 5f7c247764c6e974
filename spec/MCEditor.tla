---- MODULE MCEditor ----
EXTENDS Editor
CONSTANTS Sel, Dts
X(k, n, u, a) == [k |-> k, n |-> n, u |-> u, a |-> a, as |-> "", cl |-> ""]
C(n) == X("c", n, <<>>, <<>>)
At(n, u) == X("at", n, <<u>>, <<>>)
Call(n, a) == X("call", n, <<n>>, a)
List(a) == X("list", "", <<>>, [i \in DOMAIN a |-> Arg("", a[i])])
Dict(a) == X("dict", "", <<>>, a)
As(v, n) == [v EXCEPT !.as = n]
Asg(n, v) == [k |-> "asg", n |-> n, v |-> v, u |-> <<>>, same |-> 1]
Oth(n, u) == [k |-> "oth", n |-> n, v |-> None, u |-> u, same |-> 1]
Imp(n, m, c) == [n |-> n, m |-> m, c |-> c]
Rig == Imp("RIG_SELECT", "pyswitch.clients.kemper.actions.rig_select", "kemper")
Tun == Imp("TUNER_MODE", "pyswitch.clients.kemper.actions.tuner", "kemper")
Own == Imp("TUNER_MODE", "my.actions", "local")
Col == Imp("Colors", "pyswitch.colors", "local")
Lab == Imp("DisplayLabel", "pyswitch.ui.elements", "local")
Cb == Imp("TunerDisplayCallback", "pyswitch.clients.kemper", "kemper")
F(i, b) == [imp |-> i, body |-> b]
Cfg(i, d) == [f |-> [in |-> i, ds |-> d], known |-> [in |-> <<Rig, Tun, Col>>, ds |-> <<Lab, Cb, Col>>], com |-> [in |-> <<"# keep 1">>, ds |-> <<>>],
              pub |-> <<"L1", "L2", "Splashes">>,
              cand |-> [in |-> <<<<"Colors", "pyswitch.colors">>, <<"L1", "display">>, <<"L2", "display">>, <<"RIG_SELECT", Rig.m>>, <<"TUNER_MODE", "my.actions">>, <<"TUNER_MODE", Tun.m>>>>,
                        ds |-> <<<<"Colors", "pyswitch.colors">>, <<"DisplayLabel", Lab.m>>, <<"TunerDisplayCallback", Cb.m>>>>]]
Disp == F(<<>>, <<Asg("L1", Call("DisplayLabel", <<>>)), Asg("Splashes", Call("TunerDisplayCallback", <<Arg("", Ref("L1"))>>))>>)
All == << Cfg(F(<<Rig>>, <<Oth("print(1)", <<>>), Asg("_a", Call("RIG_SELECT", <<Arg("id", C("1"))>>)), Asg("Inputs", List(<<Ref("_a")>>))>>), Disp),
          Cfg(F(<<Own>>, <<Asg("_b", List(<<>>)), Asg("_a", Call("TUNER_MODE", <<Arg("x", Ref("_b"))>>)), Asg("Inputs", List(<<>>))>>), Disp),
          [Cfg(F(<<>>, <<>>), F(<<>>, <<>>)) EXCEPT !.com.in = <<>>] >>
Init == InitWith(All[Sel])
A2 == As(Call("RIG_SELECT", <<Arg("id", C("2"))>>), "_a")
AC == As(Call("TUNER_MODE", <<Arg("", As(Call("RIG_SELECT", <<>>), "_c"))>>), "_a")
CR == As(Call("RIG_SELECT", <<Arg("c", At("Colors.RED", "Colors"))>>), "_c")
BB == Dict(<<Arg("actions", As(List(<<>>), "_b"))>>)
TL == Call("TUNER_MODE", <<Arg("d", Ref("L1"))>>)
Trees == CASE Sel = 1 -> {List(<<>>), List(<<A2>>), List(<<AC>>), List(<<A2, CR>>), List(<<TL, A2>>)}
           [] Sel = 2 -> {List(<<BB, A2>>), List(<<AC, BB>>), List(<<Call("TUNER_MODE", <<Arg("d", Ref("_b"))>>)>>)}
           [] OTHER -> {List(<<AC>>), List(<<CR, TL>>)}
Splash == IF Sel = 1 THEN {} ELSE
    { Call("TunerDisplayCallback", <<Arg("c", At("Colors.RED", "Colors"))>>), Call("TunerDisplayCallback", <<Arg("", As(Call("DisplayLabel", <<Arg("x", As(Call("DisplayLabel", <<>>), "L2"))>>), "L1"))>>) }
E(s, sv) == Do([op |-> "edit", set |-> s, save |-> sv, d |-> None])
Next == \/ \E d \in Trees : E(<<[f |-> "in", d |-> d]>>, FALSE)
        \/ \E d \in Splash : E(<<[f |-> "ds", d |-> d]>>, FALSE)
        \/ \E f \in Files : Read(f, D[f]).k # "none" /\ E(<<[f |-> f, d |-> Read(f, D[f])]>>, FALSE)
        \/ E(<<>>, TRUE)
====
