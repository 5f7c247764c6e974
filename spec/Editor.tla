------------------------------- MODULE Editor -------------------------------
(* Web editor: reads inputs.py and display.py as trees, replaces Inputs/Splashes by edited trees, writes the files again.        *)
(* Node: [k, n, u, a, as, cl], k:                                                                                               *)
(*   "r"    name n                         "at"   attribute n of name u[1]              "c"  other code n, using the names u     *)
(*   "call" n(a), u: root name of n        "list" elements a        "dict" items a      a: sequence of [n: keyword/key, v: node] *)
(*   as: name the node is assigned to, cl: client it belongs to (trees handed out by the editor only, else "")                  *)
(* cfg: f: the files in (inputs.py) and ds (display.py): [imp: imports [n: name, m: module, c: client],                         *)
(*        body: statements [k: "asg" or "oth", n: name, v: value, u: names used (oth), same: 1]                                *)
(*      known: [in, ds]: names which are imported when used [n, m, c]; com: [in, ds]: comments on module level                  *)
(*      cand: [in, ds]: all imports which could be in the files, in the order they are observed in                             *)
(* same: the statement still is what the user wrote, character by character                                                      *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC
VARIABLES cfg, D, act, out
vars == <<cfg, D, act, out>>
View == [c |-> cfg, d |-> D]
Files == {"in", "ds"}
Target(f) == IF f = "in" THEN "Inputs" ELSE "Splashes"
Arg(n, v) == [n |-> n, v |-> v]
None == [k |-> "none", n |-> "", u |-> <<>>, a |-> <<>>, as |-> "", cl |-> ""]
Ref(n) == [k |-> "r", n |-> n, u |-> <<n>>, a |-> <<>>, as |-> "", cl |-> ""]
Assigned(B) == {B[i].n : i \in {j \in DOMAIN B : B[j].k = "asg"}}
Index(B, n) == CHOOSE i \in DOMAIN B : B[i].k = "asg" /\ B[i].n = n
Value(B, n) == B[Index(B, n)].v

(* ------------------------------------------------------------------------ reading *)
Client(I, n) == IF \E x \in I : x.n = n THEN (CHOOSE x \in I : x.n = n).c ELSE "local"
BoundsNames == <<"x", "y", "w", "h">>
ArgName(f, node, i) ==
    LET pos == Cardinality({j \in 1..i : node.a[j].n = ""})
    IN IF f = "ds" /\ node.k = "call" /\ node.n = "DisplayBounds" /\ node.a[i].n = "" /\ pos <= 4 THEN BoundsNames[pos] ELSE node.a[i].n
RECURSIVE Tree(_, _, _, _)
Tree(f, B, I, v) ==
    IF v.k = "r" THEN IF v.n \in Assigned(B) THEN [Tree(f, B, I, Value(B, v.n)) EXCEPT !.as = v.n] ELSE v
    ELSE [v EXCEPT !.a = [i \in DOMAIN v.a |-> Arg(ArgName(f, v, i), Tree(f, B, I, v.a[i].v))],
                   !.cl = IF v.k = "call" THEN Client(I, v.n) ELSE ""]
Read(f, F) ==
    LET t == Target(f)
        v == Value(F.body, t)
        x == Tree(f, F.body, F.imp, v)
    IN IF t \notin Assigned(F.body) THEN None
       ELSE IF v.k \in {"call", "dict"} \/ x.as # "" THEN [x EXCEPT !.as = t] ELSE x

(* ------------------------------------------------------------------------ writing a tree *)
SetAsg(B, name, v, before) ==
    LET s == [k |-> "asg", n |-> name, v |-> v, u |-> <<>>, same |-> 0]
        i == Index(B, before)
    IN IF name \in Assigned(B) THEN [B EXCEPT ![Index(B, name)] = s]
       ELSE IF before \in Assigned(B) THEN SubSeq(B, 1, i - 1) \o <<s>> \o SubSeq(B, i, Len(B))
       ELSE Append(B, s)
(* G: [b: statements, v: node or list of arguments] *)
RECURSIVE Gen(_, _, _)
Gen(B, d, before) ==
    LET ch == FoldLeft(LAMBDA G, x : LET r == Gen(G.b, x.v, before) IN [b |-> r.b, v |-> Append(G.v, Arg(x.n, r.v))], [b |-> B, v |-> <<>>], d.a)
        node == [d EXCEPT !.a = ch.v, !.as = "", !.cl = ""]
    IN IF d.as = "" THEN [b |-> ch.b, v |-> node]
       ELSE [b |-> IF before = "" THEN ch.b ELSE SetAsg(ch.b, d.as, node, before), v |-> Ref(d.as)]
RECURSIVE Refs(_)
Refs(v) == (IF v.k \in {"r", "at", "call"} THEN v.u ELSE <<>>) \o FlattenSeq([i \in DOMAIN v.a |-> Refs(v.a[i].v)])
(* What is used by an assignment is assigned before; besides, the order stays *)
RECURSIVE Visit(_, _, _)
Visit(B, X, i) ==
    IF i \in X.done THEN X
    ELSE LET deps == IF B[i].k = "asg" THEN SelectSeq(Refs(B[i].v), LAMBDA n : n \in Assigned(B)) ELSE <<>>
             Y == FoldLeft(LAMBDA Z, n : Visit(B, Z, Index(B, n)), [X EXCEPT !.done = @ \union {i}], deps)
         IN [Y EXCEPT !.b = Append(@, B[i])]
Sorted(B) == FoldLeft(LAMBDA X, i : Visit(B, X, i), [done |-> {}, b |-> <<>>], [i \in DOMAIN B |-> i]).b
Put(f, B, d) ==
    LET g == Gen(B, [d EXCEPT !.as = ""], Target(f))
    IN Sorted(SetAsg(g.b, Target(f), g.v, ""))

(* ------------------------------------------------------------------------ saving *)
RECURSIVE Names(_)
Names(v) == ToSet(v.u) \union UNION {Names(v.a[i].v) : i \in DOMAIN v.a}
Used(B) == UNION {IF s.k = "asg" THEN Names(s.v) ELSE ToSet(s.u) : s \in ToSet(B)}
Public(B) == {n \in Assigned(B) : \E i \in DOMAIN cfg.pub : cfg.pub[i] = n}
Importable(f, S) == ToSet(cfg.known[f]) \union (IF f = "in" THEN {[n |-> n, m |-> "display", c |-> "local"] : n \in Public(S.ds.body)} ELSE {})
Imports(f, S) == LET F == S[f] IN {x \in F.imp : x.n \in Used(F.body)}
                 \union {x \in Importable(f, S) : x.n \in Used(F.body) /\ ~\E y \in F.imp : y.n = x.n}

Saved(f, F) == [com |-> cfg.com[f],
                imp |-> [x \in 1..Len(SelectSeq(cfg.cand[f], LAMBDA y : \E z \in F.imp : <<z.n, z.m>> = y)) |-> SelectSeq(cfg.cand[f], LAMBDA y : \E z \in F.imp : <<z.n, z.m>> = y)[x]],
                body |-> [i \in DOMAIN F.body |-> [n |-> F.body[i].n, same |-> F.body[i].same, v |-> F.body[i].v]]]
Obs(S, save, code) == [exc |-> "", in |-> Read("in", S.in), ds |-> Read("ds", S.ds),
                       disp |-> LET q == SelectSeq(S.ds.body, LAMBDA s : s.k = "asg" /\ \E i \in DOMAIN cfg.pub : cfg.pub[i] = s.n) IN [i \in DOMAIN q |-> q[i].n],
                       code |-> code, files |-> IF save THEN <<Saved("in", S.in), Saved("ds", S.ds)>> ELSE <<>>]

InitWith(c) == /\ cfg = c
               /\ D = [f \in Files |-> [imp |-> ToSet(c.f[f].imp), body |-> c.f[f].body]]
               /\ act = [op |-> "load"]
               /\ out = Obs(D, FALSE, None)
Do(a) == /\ act' = a
         /\ LET S1 == FoldLeft(LAMBDA S, x : [S EXCEPT ![x.f].body = Put(x.f, @, x.d)], D, a.set)
                S2 == IF a.save THEN [f \in Files |-> [S1[f] EXCEPT !.imp = Imports(f, S1)]] ELSE S1
            IN /\ D' = TLCEval(S2)
               /\ out' = TLCEval(Obs(S2, a.save, IF a.op = "code" THEN Gen(<<>>, a.d, "").v ELSE None))
         /\ UNCHANGED cfg

-----------------------------------------------------------------------------
(* Everything used by an assignment is assigned before, if it is in the file at all (provided the files are loaded that way) *)
Ordered(B) == \A i \in DOMAIN B : B[i].k = "asg" => \A n \in ToSet(Refs(B[i].v)) : n \in Assigned(B) => Index(B, n) < i
Unique(B) == \A i, j \in DOMAIN B : (B[i].k = "asg" /\ B[j].k = "asg" /\ B[i].n = B[j].n) => i = j
Safety == \A f \in Files : Unique(D[f].body) /\ Ordered(D[f].body)

Plain(v) == [k |-> v.k, n |-> v.n, a |-> v.a]
RECURSIVE Bare(_)
Bare(v) == [v EXCEPT !.cl = "", !.a = [i \in DOMAIN v.a |-> Arg(v.a[i].n, Bare(v.a[i].v))]]
RECURSIVE Subs(_)
Subs(v) == {v} \union UNION {Subs(v.a[i].v) : i \in DOMAIN v.a}
Consistent(d, B) == /\ \A x, y \in Subs(d) : (x.as # "" /\ x.as = y.as) => x = y
                    /\ \A x \in Subs(d) : x.k = "r" => x.n \notin Assigned(B)
                    /\ \A x \in Subs(d) : x.n = "DisplayBounds" => \A i \in DOMAIN x.a : x.a[i].n # ""
RECURSIVE Norm(_, _)
Norm(f, v) == [v EXCEPT !.a = [i \in DOMAIN v.a |-> Arg(ArgName(f, v, i), Norm(f, v.a[i].v))]]
Content(f, B) == [i \in DOMAIN B |-> <<B[i].k, B[i].n, Norm(f, B[i].v)>>]
(* Saving what has been read changes nothing *)
RoundTrip == (Len(act'.set) = 1 /\ Target(act'.set[1].f) \in Assigned(D[act'.set[1].f].body)) =>
    LET x == act'.set[1] B == D[x.f].body
    IN (x.d = Read(x.f, D[x.f]) /\ Value(B, Target(x.f)).k # "r") => Content(x.f, D'[x.f].body) = Content(x.f, B)
(* What has been set is what is read *)
ReadBack == Len(act'.set) = 1 => LET x == act'.set[1] IN
    Consistent(x.d, D'[x.f].body) => [Bare(Read(x.f, D'[x.f])) EXCEPT !.as = ""] = [Bare(x.d) EXCEPT !.as = ""]
(* All other statements stay as they are, in the same order *)
Others(B, d) == SelectSeq(B, LAMBDA s : s.k = "oth" \/ s.n \notin {x.as : x \in Subs(d)})
Untouched == \A x \in ToSet(act'.set) : Len(act'.set) = 1 =>
    ToSet(SelectSeq(Others(D[x.f].body, x.d), LAMBDA s : s.n # Target(x.f))) \subseteq ToSet(D'[x.f].body)
(* After saving everything used is imported from one place, and nothing else is *)
Complete == act'.save => \A f \in Files : LET F == D'[f] IN
    /\ \A n \in Used(F.body) : Cardinality({x \in F.imp : x.n = n}) = (IF \E y \in Importable(f, D') \union D[f].imp : y.n = n THEN 1 ELSE 0)
    /\ \A x \in F.imp : x.n \in Used(F.body)
StepOK == RoundTrip /\ ReadBack /\ Untouched /\ Complete /\ (act'.set = <<>> => \A f \in Files : D'[f].body = D[f].body)
=============================================================================
