---------------------------- MODULE PushButton ----------------------------
(* Push button actions: state by mode. All buttons of the configuration are assigned to one switch.                   *)
EXTENDS Integers, Sequences, SequencesExt

VARIABLES
    cfg,     \* b: seq. of [mode, hold: hold time]; click: 1 if the switch has hold actions, too (push and release come together at the release)
    state,   \* per button: on/off
    per,     \* per button: time since the hold timer was started (at startup: uptime)
    down, held, fired,   \* switch position, time since pressed, hold action fired during this press
    hp,      \* per button, for the properties: state before the current press, <<>> if not pressed
    act, out

vars == <<cfg, state, per, down, held, fired, hp, act, out>>
View == [c |-> cfg, s |-> state, p |-> per, d |-> down, h |-> held, f |-> fired, hp |-> hp]
N == Len(cfg.b)
B == 1..N
Cap(n) == IF n > 20000 THEN 20000 ELSE n
Mode(i) == IF cfg.b[i].mode = "DEFAULT" THEN "HOLD_MOMENTARY" ELSE cfg.b[i].mode

(* Result of push / release: <<new state, told>>; told: sequence of states the functionality is told about as user change *)
PushRes(m, s) ==
    CASE m \in {"ENABLE", "MOMENTARY"}          -> <<1, IF s = 1 THEN <<>> ELSE <<1>>>>
      [] m \in {"DISABLE", "MOMENTARY_INVERSE"} -> <<0, IF s = 0 THEN <<>> ELSE <<0>>>>
      [] m \in {"LATCH", "HOLD_MOMENTARY"}      -> <<1 - s, <<1 - s>>>>
      [] m = "ONE_SHOT"                         -> <<1, <<1>>>>
      [] m = "NO_STATE_CHANGE"                  -> <<s, <<>>>>
RelRes(m, s, long) ==
    CASE m = "MOMENTARY"                  -> <<0, IF s = 0 THEN <<>> ELSE <<0>>>>
      [] m = "MOMENTARY_INVERSE"          -> <<1, IF s = 1 THEN <<>> ELSE <<1>>>>
      [] m = "HOLD_MOMENTARY" /\ long     -> <<1 - s, <<1 - s>>>>
      [] m = "ONE_SHOT"                   -> <<0, <<>>>>
      [] OTHER                            -> <<s, <<>>>>

Out(st, told) == [exc |-> "", state |-> st, shown |-> st, told |-> told]
Tag(i, seq) == [k \in 1..Len(seq) |-> <<i, seq[k]>>]

InitWith(c) ==
    /\ cfg = c
    /\ LET n == 1..Len(c.b) IN
       /\ state = [i \in n |-> 0]
       /\ per = [i \in n |-> Cap(1000)]
       /\ hp = [i \in n |-> <<>>]
       /\ out = Out([i \in n |-> 0], <<>>)
    /\ down = 0 /\ held = 0 /\ fired = FALSE
    /\ act = [op |-> "init"]

Tick(dt, dn) ==
    LET edge == dn # down
        p0 == [i \in B |-> Cap(per[i] + dt)]
        h0 == Cap(held + dt)
        push == IF cfg.click = 1 THEN FALSE ELSE edge /\ dn = 1
        rel  == IF cfg.click = 1 THEN FALSE ELSE edge /\ dn = 0
        \* with hold actions: complete click at the release of a short press
        click == cfg.click = 1 /\ edge /\ dn = 0 /\ ~fired /\ ~(h0 > 600)
        pr == [i \in B |-> PushRes(Mode(i), state[i])]
        rr == [i \in B |-> RelRes(Mode(i), IF click THEN pr[i][1] ELSE state[i], IF click THEN 0 > cfg.b[i].hold ELSE p0[i] > cfg.b[i].hold)]
        res == [i \in B |-> IF push THEN pr[i] ELSE IF rel THEN rr[i]
                            ELSE IF click THEN <<rr[i][1], pr[i][2] \o rr[i][2]>> ELSE <<state[i], <<>>>>]
        st == [i \in B |-> res[i][1]]
    IN /\ state' = st
       /\ per' = [i \in B |-> IF Mode(i) = "HOLD_MOMENTARY" /\ (push \/ click \/ (rel /\ p0[i] > cfg.b[i].hold)) THEN 0 ELSE p0[i]]
       /\ down' = dn
       /\ held' = IF edge /\ dn = 1 THEN 0 ELSE IF dn = 0 \/ cfg.click = 0 THEN 0 ELSE h0
       /\ fired' = IF dn = 0 THEN FALSE ELSE IF edge THEN FALSE ELSE fired \/ (cfg.click = 1 /\ h0 > 600)
       /\ hp' = [i \in B |-> IF push THEN <<state[i]>> ELSE IF rel THEN <<>> ELSE hp[i]]
       /\ out' = Out(st, FlattenSeq([i \in B |-> Tag(i, res[i][2])]))
       /\ UNCHANGED cfg

(* Feedback of the device *)
Feedback(i, s) == /\ state' = [state EXCEPT ![i] = s]
                  /\ hp' = [hp EXCEPT ![i] = <<>>]
                  /\ out' = Out(state', <<>>)
                  /\ UNCHANGED <<cfg, per, down, held, fired>>
Reset(i) == Feedback(i, 0)
(* State set by the user by other means *)
Set(i, s) == /\ state' = [state EXCEPT ![i] = s]
             /\ hp' = [hp EXCEPT ![i] = <<>>]
             /\ out' = Out(state', IF state[i] = s THEN <<>> ELSE <<<<i, s>>>>)
             /\ UNCHANGED <<cfg, per, down, held, fired>>
Do(a) ==
    /\ act' = a
    /\ CASE a.op = "tick"     -> Tick(a.dt, a.down)
         [] a.op = "feedback" -> Feedback(a.i, a.s)
         [] a.op = "reset"    -> Reset(a.i)
         [] a.op = "set"      -> Set(a.i, a.s)

-----------------------------------------------------------------------------
(* Momentary modes follow the switch position unless feedback came in *)
Safety == \A i \in B : (down = 1 /\ cfg.click = 0 /\ hp[i] # <<>>) =>
            CASE Mode(i) \in {"MOMENTARY", "ENABLE", "ONE_SHOT"} -> state[i] = 1
              [] Mode(i) \in {"MOMENTARY_INVERSE", "DISABLE"} -> state[i] = 0
              [] Mode(i) \in {"LATCH", "HOLD_MOMENTARY"} -> state[i] = 1 - hp[i][1]
              [] OTHER -> state[i] = hp[i][1]
(* The functionality is told exactly once per change by the user, with the new state; never for feedback or reset *)
StepOK ==
    /\ act'.op \in {"feedback", "reset"} => out'.told = <<>>
    /\ \A i \in B : LET t == SelectSeq(out'.told, LAMBDA e : e[1] = i) IN
         /\ (act'.op = "tick" /\ cfg.click = 0 /\ Mode(i) # "ONE_SHOT") => Len(t) = (IF state'[i] # state[i] THEN 1 ELSE 0)
         /\ (t # <<>> /\ ~(cfg.click = 1 /\ Mode(i) = "ONE_SHOT")) => t[Len(t)][2] = state'[i]
         /\ (act'.op = "tick" /\ down = down') => state'[i] = state[i]
    (* Hold momentary: back to the state before the press exactly if held long, unless feedback came in meanwhile *)
    /\ (act'.op = "tick" /\ down = 1 /\ down' = 0 /\ cfg.click = 0) => \A i \in B : (Mode(i) = "HOLD_MOMENTARY" /\ hp[i] # <<>>) =>
            (state'[i] = hp[i][1]) = (per[i] + act'.dt > cfg.b[i].hold)
=============================================================================
