------------------------------ MODULE Mapping ------------------------------
(* Parameter mappings: decoding of received messages, encoding of set values.                                         *)
(* Messages and templates: [k: "cc"/"pc"/"sx"/"none", c: control, v: value, man: manufacturer id, dat: SysEx data]    *)
EXTENDS Integers, Sequences, SequencesExt

VARIABLES
    cfg,      \* pr: seq. of parameters [resp: 1 or 2 templates (2: two-part), str: text parameter, req: has to be requested, set: templates, list: set is a list]
    val,      \* per parameter: <<>> unknown, <<v>>, or <<-7, characters...>> for texts
    first,    \* per parameter: first part received (two-part parameters), <<>> none
    open,     \* per parameter: an answer is awaited
    act, out

vars == <<cfg, val, first, open, act, out>>
View == [c |-> cfg, v |-> val, f |-> first, o |-> open]
P == DOMAIN cfg.pr

Match(t, m) == /\ t.k = m.k
               /\ CASE m.k = "cc" -> t.c = m.c
                    [] m.k = "pc" -> TRUE
                    [] m.k = "sx" -> t.man = m.man /\ SubSeq(t.dat, 3, 6) = SubSeq(m.dat, 3, 6)
                    [] OTHER -> FALSE
Decode(p, m) == IF m.k = "sx"
                THEN IF p.str = 1 THEN <<-7>> \o SubSeq(m.dat, 7, Len(m.dat) - 1)
                     ELSE <<128 * m.dat[Len(m.dat) - 1] + m.dat[Len(m.dat)]>>
                ELSE <<m.v>>

Two(p) == Len(p.resp) = 2
(* Result of a message for parameter i: <<value, first, told>> *)
Parse(i, m) ==
    LET p == cfg.pr[i] IN
    IF open[i] = 0 \/ p.resp = <<>> THEN <<val[i], first[i], FALSE>>
    ELSE IF ~Two(p) THEN IF Match(p.resp[1], m) THEN <<Decode(p, m), <<>>, TRUE>> ELSE <<val[i], <<>>, FALSE>>
    ELSE IF Match(p.resp[1], m) THEN <<val[i], Decode(p, m), FALSE>>
    ELSE IF Match(p.resp[2], m) /\ first[i] # <<>> THEN <<<<128 * first[i][1] + Decode(p, m)[1]>>, <<>>, TRUE>>
    ELSE <<val[i], first[i], FALSE>>

Pad(d) == [k \in 1..(IF Len(d) < 8 THEN 8 ELSE Len(d)) |-> IF k <= Len(d) THEN d[k] ELSE 0]
Encode(t, v) == CASE t.k = "cc" -> <<176, t.c, v>>
                  [] t.k = "pc" -> <<192, v>>
                  [] t.k = "sx" -> <<240>> \o t.man \o [Pad(t.dat) EXCEPT ![7] = v \div 128, ![8] = v % 128]

Out(sent, log, vs) == [exc |-> "", sent |-> sent, log |-> log, val |-> vs]
InitWith(c) ==
    /\ cfg = c
    /\ LET n == DOMAIN c.pr IN
       /\ val = [i \in n |-> <<>>] /\ first = [i \in n |-> <<>>] /\ open = [i \in n |-> 1 - c.pr[i].req]
       /\ out = Out(<<>>, <<>>, [i \in n |-> <<>>])
    /\ act = [op |-> "init"]

Msg(m) ==
    LET r == [i \in P |-> Parse(i, m)] IN
    /\ val' = [i \in P |-> r[i][1]]
    /\ first' = [i \in P |-> r[i][2]]
    /\ open' = [i \in P |-> IF r[i][3] /\ cfg.pr[i].req = 1 THEN 0 ELSE open[i]]
    /\ out' = Out(<<>>, FlattenSeq([i \in P |-> IF r[i][3] THEN <<<<i>> \o r[i][1]>> ELSE <<>>]), val')
    /\ UNCHANGED cfg

Ask(i) == /\ open' = [open EXCEPT ![i] = 1]
          /\ out' = Out(IF cfg.pr[i].req = 1 /\ open[i] = 0 THEN <<<<240, 9, i>>>> ELSE <<>>, <<>>, val)
          /\ UNCHANGED <<cfg, val, first>>

Set(i, vs) ==
    LET p == cfg.pr[i] IN
    /\ out' = Out(FlattenSeq([k \in 1..Len(p.set) |-> IF p.set[k].k = "none" THEN <<>> ELSE <<Encode(p.set[k], vs[k])>>]), <<>>, val)
    /\ UNCHANGED <<cfg, val, first, open>>

Do(a) ==
    /\ act' = a
    /\ CASE a.op = "msg" -> Msg(a.m)
         [] a.op = "ask" -> Ask(a.p)
         [] a.op = "set" -> Set(a.p, a.vs)

-----------------------------------------------------------------------------
InRange == \A i \in P : (val[i] # <<>> /\ val[i][1] # -7) =>
            /\ val[i][1] >= 0
            /\ (~Two(cfg.pr[i]) => val[i][1] <= IF cfg.pr[i].resp[1].k = "sx" THEN 16383 ELSE 127)
OnlyTwoPart == \A i \in P : first[i] # <<>> => Two(cfg.pr[i])
Safety == InRange /\ OnlyTwoPart
(* no crosstalk: what is not addressed does not change; what has been set can be read back *)
AsMsg(t, e) == [k |-> t.k, c |-> t.c, v |-> e[Len(e)], man |-> t.man, dat |-> IF t.k = "sx" THEN SubSeq(e, 2 + Len(t.man), Len(e)) ELSE <<>>]
StepOK ==
    /\ act'.op = "msg" => \A i \in P : (\A k \in DOMAIN cfg.pr[i].resp : ~Match(cfg.pr[i].resp[k], act'.m)) => val'[i] = val[i]
    /\ act'.op # "msg" => val' = val
    /\ act'.op = "set" => LET p == cfg.pr[act'.p] IN
            (Len(p.set) = 1 /\ p.set[1].k # "none" /\ Len(Pad(p.set[1].dat)) = 8 /\ p.str = 0) =>
               Decode(p, AsMsg(p.set[1], out'.sent[1])) = <<act'.vs[1]>>
=============================================================================
