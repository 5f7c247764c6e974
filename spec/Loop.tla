------------------------------- MODULE Loop -------------------------------
(* The processing loop (Controller.tick, Controller.init): polling of inputs, handling of incoming MIDI messages and *)
(* periodic updates. Messages are numbers; the log of a loop pass is a sequence of events:                           *)
(*   <<0>> all inputs have been evaluated (repeated evaluation is not an event), <<1, m>> message m was handled,     *)
(*   <<2, u>> updateable u was updated.                                                                              *)
EXTENDS Integers, Sequences, SequencesExt

VARIABLES
    cfg,     \* [interval, burst (max. consecutive messages), nupd (number of updateables), clear (buffers at startup), uptime]
    q,       \* input buffer of the MIDI port
    age,     \* time since the last periodic update
    running, \* startup has been done
    arr, handled, dropped,     \* history
    act, out

vars == <<cfg, q, age, running, arr, handled, dropped, act, out>>
View == <<cfg, q, age, running, arr, handled, dropped>>

P == <<0>>
Cap(n) == IF n > 100000 THEN 100000 ELSE n

(* Append an event; evaluating the inputs twice in a row is one event *)
Add(log, e) == IF e = P /\ log # <<>> /\ Last(log) = P THEN log ELSE Append(log, e)

(* One burst: evaluate inputs, handle one message, and again, until there is none left or the limit is exceeded *)
RECURSIVE Burst(_, _, _)
Burst(log, queue, cnt) ==
    LET l1 == Add(log, P) IN
    IF queue = <<>> THEN <<l1, queue>>
    ELSE LET l2 == Add(l1, <<1, Head(queue)>>) IN
         IF cnt + 1 > cfg.burst THEN <<l2, Tail(queue)>>
         ELSE Burst(l2, Tail(queue), cnt + 1)

(* All updateables in order, with a burst before each of them. inj[u]: messages arriving while u is updated *)
RECURSIVE Updates(_, _, _, _)
Updates(log, queue, u, inj) ==
    IF u > cfg.nupd THEN <<log, queue>>
    ELSE LET b == Burst(log, queue, 0) IN
         Updates(Add(b[1], <<2, u>>), b[2] \o inj[u], u + 1, inj)

InitWith(c) ==
    /\ cfg = c
    /\ q = <<>>
    /\ age = c.uptime
    /\ running = FALSE
    /\ arr = <<>> /\ handled = <<>> /\ dropped = <<>>
    /\ act = [op |-> "init"]
    /\ out = [exc |-> "", log |-> <<>>, alive |-> 1]

Arrive(ms) ==
    /\ q' = q \o ms
    /\ arr' = arr \o ms
    /\ out' = [exc |-> "", log |-> <<>>, alive |-> 1]
    /\ UNCHANGED <<cfg, age, running, handled, dropped>>

(* Startup: messages which piled up before are discarded *)
Startup ==
    /\ ~running
    /\ running' = TRUE
    /\ q' = IF cfg.clear = 1 THEN <<>> ELSE q
    /\ dropped' = IF cfg.clear = 1 THEN q ELSE <<>>
    /\ out' = [exc |-> "", log |-> <<>>, alive |-> 1]
    /\ UNCHANGED <<cfg, age, arr, handled>>

HandledIn(log) == LET h == SelectSeq(log, LAMBDA e : e[1] = 1) IN [i \in 1..Len(h) |-> h[i][2]]

Tick(dt, inj) ==
    /\ running
    /\ LET due == age + dt > cfg.interval
           up  == IF due THEN Updates(<<>>, q, 1, inj) ELSE <<(<<>>), q>>
           b   == Burst(up[1], up[2], 0)
       IN /\ q' = b[2]
          /\ age' = IF due THEN 0 ELSE Cap(age + dt)
          /\ handled' = handled \o HandledIn(b[1])
          /\ arr' = IF due THEN arr \o FlattenSeq(inj) ELSE arr
          /\ out' = [exc |-> "", log |-> b[1], alive |-> 1]
    /\ UNCHANGED <<cfg, running, dropped>>

Do(a) ==
    /\ act' = a
    /\ CASE a.op = "arrive"  -> Arrive(a.ms)
         [] a.op = "startup" -> Startup
         [] a.op = "tick"    -> Tick(a.dt, a.inj)

-----------------------------------------------------------------------------
(* Every message is handled exactly once, in order of arrival, except those discarded at startup *)
NoLoss == arr = dropped \o handled \o q
StartupOnly == ~running => handled = <<>>
(* All inputs are evaluated before every single message, and between any two updates *)
Responsive ==
    /\ \A i \in 1..Len(out.log) : out.log[i][1] = 1 => i > 1 /\ out.log[i - 1] = P
    /\ \A j \in 1..Len(out.log) : out.log[j][1] = 2 =>
            \E i \in 1..(j - 1) : out.log[i] = P /\ \A k \in i..(j - 1) : out.log[k][1] # 2
(* At most (burst + 1) messages between two updates *)
Bounded == LET L == out.log
               marks == {0, Len(L) + 1} \cup {i \in 1..Len(L) : L[i][1] = 2}
           IN \A i, j \in marks : (i < j /\ \A k \in marks : ~(i < k /\ k < j)) =>
                Len(SelectSeq(SubSeq(L, i + 1, j - 1), LAMBDA e : e[1] = 1)) <= cfg.burst + 1
(* All updates in order or none *)
UpdatesOnce == LET u == SelectSeq(out.log, LAMBDA e : e[1] = 2)
               IN u = <<>> \/ u = [i \in 1..cfg.nupd |-> <<2, i>>]
Safety == NoLoss /\ StartupOnly
StepOK == (Responsive /\ Bounded /\ UpdatesOnce)'
=============================================================================
