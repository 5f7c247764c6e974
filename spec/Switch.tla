------------------------------ MODULE Switch ------------------------------
(* Foot switches: what the polling of the switch positions triggers. Actions are numbers > 0 (unique over all switches), *)
(* 0 is the override action of the switch. Events: <<1, a>> push of a, <<2, a>> release of a.                            *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets

VARIABLES
    cfg,    \* sw: seq. of [acts, hold: seq. of actions; repeat: 0/1; interval: hold time; nest: grouping in the configuration (no influence)]
            \* dis: actions disabled initially, eff: <<a, b>>: pushing a toggles if b is enabled (<<0, 0>>: none)
    down,   \* per switch: position seen at the last poll
    per,    \* per switch: time since the hold timer has been started
    hold,   \* per switch: 0 no hold possible, 1 waiting for the hold time, 2 hold has already been fired (repeat)
    eaten,  \* per switch: the current push has been consumed by the override
    ovr,    \* per switch: <<>> no override, <<p, r>>: override with the answers of push and release (1: let pass)
    dis,    \* set of disabled actions
    hist,   \* per switch, for the properties: what this press has triggered: set of "short", "hold"
    act, out

vars == <<cfg, down, per, hold, eaten, ovr, dis, hist, act, out>>
View == [c |-> cfg, d |-> down, p |-> per, h |-> hold, e |-> eaten, o |-> ovr, s |-> dis, i |-> hist]

Cap(n) == IF n > 20000 THEN 20000 ELSE n
Toggle(S, x) == IF x \in S THEN S \ {x} ELSE S \cup {x}
Effect(d, a) == IF cfg.eff[1] = a /\ a # 0 THEN Toggle(d, cfg.eff[2]) ELSE d

(* Fire the enabled ones of a list of actions. kinds: <<1>> push, <<2>> release or <<1, 2>>. Result <<log, disabled>> *)
RECURSIVE Fire(_, _, _, _)
Fire(as, kinds, log, d) ==
    IF as = <<>> THEN <<log, d>>
    ELSE LET a == Head(as) IN
         IF a \in d THEN Fire(Tail(as), kinds, log, d)
         ELSE Fire(Tail(as), kinds, log \o [i \in 1..Len(kinds) |-> <<kinds[i], a>>], IF 1 \in ToSet(kinds) THEN Effect(d, a) ELSE d)

(* State of one switch as record: s = [down, per, hold, eaten, hist, log, dis] *)
HoldFire(c, s) == LET f == Fire(c.hold, <<1, 2>>, s.log, s.dis)
                  IN [s EXCEPT !.log = f[1], !.dis = f[2], !.per = 0, !.hold = IF c.repeat = 1 THEN 2 ELSE 0, !.hist = @ \cup {"hold"}]

Release(c, s) ==
    IF c.hold = <<>> THEN LET f == Fire(c.acts, <<2>>, s.log, s.dis) IN [s EXCEPT !.log = f[1], !.dis = f[2]]
    ELSE IF s.hold = 0 THEN s
    ELSE IF s.per > c.interval THEN [HoldFire(c, s) EXCEPT !.hold = 0]
    ELSE IF s.hold = 2 THEN [s EXCEPT !.hold = 0]
    ELSE LET f == Fire(c.acts, <<1, 2>>, s.log, s.dis) IN [s EXCEPT !.log = f[1], !.dis = f[2], !.hold = 0, !.hist = @ \cup {"short"}]

Push(c, s) ==
    IF c.hold # <<>> THEN [s EXCEPT !.per = 0, !.hold = 1]
    ELSE LET f == Fire(c.acts, <<1>>, s.log, s.dis) IN [s EXCEPT !.log = f[1], !.dis = f[2]]

Poll(c, s, isDown, o) ==
    IF ~isDown /\ s.down THEN
        LET t == [s EXCEPT !.down = FALSE] IN
        IF o = <<>> THEN (IF t.eaten THEN t ELSE Release(c, t))
        ELSE LET u == [t EXCEPT !.log = Append(@, <<2, 0>>)]
             IN IF o[2] = 1 THEN Release(c, u) ELSE [u EXCEPT !.hold = 0]
    ELSE IF isDown /\ s.down THEN
        IF s.hold # 0 /\ s.per > c.interval THEN HoldFire(c, s) ELSE s
    ELSE IF isDown /\ ~s.down THEN
        LET t == [s EXCEPT !.down = TRUE, !.hist = {}, !.eaten = (o # <<>> /\ o[1] = 0),
                           !.log = IF o = <<>> THEN @ ELSE Append(@, <<1, 0>>)]
        IN IF t.eaten THEN t ELSE Push(c, t)
    ELSE s

N == Len(cfg.sw)
RECURSIVE PollAll(_, _, _, _, _)
PollAll(i, downs, dt, sts, d) ==
    IF i > N THEN <<sts, d>>
    ELSE LET s0 == [down |-> down[i], per |-> Cap(per[i] + dt), hold |-> hold[i], eaten |-> eaten[i], hist |-> hist[i], log |-> <<>>, dis |-> d]
             s1 == Poll(cfg.sw[i], s0, downs[i] = 1, ovr[i])
         IN PollAll(i + 1, downs, dt, Append(sts, s1), s1.dis)

InitWith(c) ==
    /\ cfg = c
    /\ LET n == 1..Len(c.sw) IN
       /\ down = [i \in n |-> FALSE] /\ per = [i \in n |-> 0] /\ hold = [i \in n |-> 0]
       /\ eaten = [i \in n |-> FALSE] /\ ovr = [i \in n |-> <<>>] /\ hist = [i \in n |-> {}]
    /\ dis = ToSet(c.dis)
    /\ act = [op |-> "init"]
    /\ out = [exc |-> "", log |-> <<>>]

Tick(dt, downs) ==
    LET r == PollAll(1, downs, dt, <<>>, dis)
        s == r[1]
    IN /\ down' = [i \in 1..N |-> s[i].down]
       /\ per'  = [i \in 1..N |-> IF s[i].hold = 0 THEN 0 ELSE s[i].per]     \* only meaningful while a hold is possible
       /\ hold' = [i \in 1..N |-> s[i].hold]
       /\ eaten' = [i \in 1..N |-> s[i].eaten /\ s[i].down]
       /\ hist' = [i \in 1..N |-> s[i].hist]
       /\ dis' = r[2]
       /\ out' = [exc |-> "", log |-> FlattenSeq([i \in 1..N |-> s[i].log])]
       /\ UNCHANGED <<cfg, ovr>>

Enable(a, on) == /\ dis' = IF on = 1 THEN dis \ {a} ELSE dis \cup {a}
                 /\ out' = [exc |-> "", log |-> <<>>]
                 /\ UNCHANGED <<cfg, down, per, hold, eaten, ovr, hist>>
Override(i, o) == /\ ovr' = [ovr EXCEPT ![i] = o]
                  /\ out' = [exc |-> "", log |-> <<>>]
                  /\ UNCHANGED <<cfg, down, per, hold, eaten, dis, hist>>

Do(a) ==
    /\ act' = a
    /\ CASE a.op = "tick"     -> Tick(a.dt, a.downs)
         [] a.op = "enable"   -> Enable(a.a, a.on)
         [] a.op = "override" -> Override(a.sw, a.o)

-----------------------------------------------------------------------------
(* C04: a press is short or a hold, never both *)
Exclusive == \A i \in 1..N : ~({"short", "hold"} \subseteq hist[i])
(* Without hold actions, nothing ever waits *)
NoHoldState == \A i \in 1..N : (cfg.sw[i].hold = <<>> => hold[i] = 0) /\ (hold[i] # 0 => down[i]) /\ (hold[i] = 2 => cfg.sw[i].repeat = 1)
Safety == Exclusive /\ NoHoldState

Ids(L) == {L[k][2] : k \in 1..Len(L)}
Of(i) == ToSet(cfg.sw[i].acts) \cup ToSet(cfg.sw[i].hold)
Count(L, e) == Len(SelectSeq(L, LAMBDA x : x = e))
(* C03: events only at changes of the position (except hold), in configured order, at most once; never for disabled actions *)
StepOK ==
    act'.op = "tick" =>
      LET L == out'.log IN
      /\ \A i \in 1..N :
            LET changed == down[i] # down'[i] IN
            /\ ~changed => \A a \in ToSet(cfg.sw[i].acts) : a \notin Ids(L)
            /\ (changed /\ cfg.sw[i].hold = <<>> /\ ovr[i] = <<>> /\ cfg.eff = <<0, 0>> /\ ~(eaten[i] /\ ~down'[i])) =>
                 LET k == IF down'[i] THEN 1 ELSE 2
                     ex == SelectSeq(cfg.sw[i].acts, LAMBDA a : a \notin dis)
                 IN SelectSeq(L, LAMBDA e : e[2] \in Of(i)) = [x \in 1..Len(ex) |-> <<k, ex[x]>>]
            /\ (ovr[i] # <<>> /\ changed /\ ovr[i][IF down'[i] THEN 1 ELSE 2] = 0) => \A a \in Of(i) : a \notin Ids(L)
            (* a hold action fires as a complete click and only if the hold time has passed *)
            /\ \A a \in ToSet(cfg.sw[i].hold) : Count(L, <<1, a>>) = Count(L, <<2, a>>) /\ Count(L, <<1, a>>) <= 1
                    /\ (a \in Ids(L) => hold[i] # 0 /\ per[i] + act'.dt > cfg.sw[i].interval)
      /\ cfg.eff = <<0, 0>> => \A a \in dis : a \notin Ids(L)
=============================================================================
