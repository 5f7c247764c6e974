------------------------------ MODULE Routing ------------------------------
(* MIDI routing (lib/pyswitch/controller/midi.py): the MIDI hub of the device.                                   *)
(* Devices are 1..cfg.n, 0 is the application. cfg.routes is the configured list of routings <<source, target>>. *)
(* A message is an integer 100*origin + 10*number + kind; kind 1 marks an event of unknown type (or bytes which are no valid message), which is never  *)
(* forwarded to another port. One poll (Receive) takes at most one message of every source.                      *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

VARIABLES
    cfg,     \* configuration: [n |-> number of devices, routes |-> sequence of <<s, t>>]
    inq,     \* inq[d]: messages waiting in the input buffer of device d
    pend,    \* pend[d]: message of d which has been forwarded already, but not yet taken by the application (0: none)
    arr,     \* history: all messages which ever arrived at d
    fwd,     \* history: fwd[d][t]: all messages of d passed on to t
    taken,   \* history: taken[d]: all messages of d the application got
    act, out

vars == <<cfg, inq, pend, arr, fwd, taken, act, out>>
View == <<cfg, inq, pend, arr, fwd, taken>>

App == 0
Dev == 1..cfg.n
Unknown(m) == m % 10 = 1

Routes == 1..Len(cfg.routes)
Src(r) == cfg.routes[r][1]
Tgt(r) == cfg.routes[r][2]
ToApp    == SelectSeq([i \in Routes |-> i], LAMBDA r : Tgt(r) = App)
FromApp  == {r \in Routes : Src(r) = App}
External == {r \in Routes : Src(r) # App /\ Tgt(r) # App}
IsExtSource(d) == \E r \in External : Src(r) = d
IsAppSource(d) == \E i \in 1..Len(ToApp) : Src(ToApp[i]) = d
Mult(d, t) == Cardinality({r \in External : Src(r) = d /\ Tgt(r) = t})   \* parallel routings deliver once each

NoSends == [t \in Dev |-> [s \in 1..(cfg.n + 1) |-> <<>>]]

InitWith(c) ==
    /\ cfg = c
    /\ inq = [d \in 1..c.n |-> <<>>]
    /\ pend = [d \in 1..c.n |-> 0]
    /\ arr = [d \in 1..c.n |-> <<>>]
    /\ fwd = [d \in 1..c.n |-> [t \in 1..c.n |-> <<>>]]
    /\ taken = [d \in 1..c.n |-> <<>>]
    /\ act = [op |-> "init"]
    /\ out = [exc |-> "", ret |-> 0, sent |-> [t \in 1..c.n |-> [s \in 1..(c.n + 1) |-> <<>>]]]

(* A message arrives at the input buffer of device d *)
Arrive(d, m) ==
    /\ inq' = [inq EXCEPT ![d] = Append(@, m)]
    /\ arr' = [arr EXCEPT ![d] = Append(@, m)]
    /\ out' = [exc |-> "", ret |-> 0, sent |-> NoSends]
    /\ UNCHANGED <<cfg, pend, fwd, taken>>

Rep(m, k) == [i \in 1..k |-> m]

(* The application polls for its next message. First, every source of an external routing gives one message to all    *)
(* targets it is routed to; then the first application source (in order of configuration) having a message is served. *)
(* A source which feeds the application as well as other devices is read only once for both.                          *)
Receive ==
    LET pulled == [d \in Dev |-> IF IsExtSource(d) /\ pend[d] = 0 /\ inq[d] # <<>> THEN Head(inq[d]) ELSE 0]
        inq1   == [d \in Dev |-> IF pulled[d] # 0 THEN Tail(inq[d]) ELSE inq[d]]
        sends  == [d \in Dev |-> [t \in Dev |-> IF pulled[d] # 0 /\ ~Unknown(pulled[d]) THEN Rep(pulled[d], Mult(d, t)) ELSE <<>>]]
        pend1  == [d \in Dev |-> IF pulled[d] # 0 /\ IsAppSource(d) THEN pulled[d] ELSE pend[d]]
        Avail(d) == IF IsExtSource(d) THEN pend1[d] ELSE IF inq1[d] # <<>> THEN Head(inq1[d]) ELSE 0
        cands  == {i \in 1..Len(ToApp) : Avail(Src(ToApp[i])) # 0}
        served == IF cands = {} THEN 0 ELSE Src(ToApp[CHOOSE i \in cands : \A j \in cands : i <= j])
        ret    == IF served = 0 THEN 0 ELSE Avail(served)
    IN
    /\ inq' = [d \in Dev |-> IF d = served /\ ~IsExtSource(d) THEN Tail(inq1[d]) ELSE inq1[d]]
    /\ pend' = [d \in Dev |-> IF d = served THEN 0 ELSE pend1[d]]
    /\ fwd' = [d \in Dev |-> [t \in Dev |-> fwd[d][t] \o sends[d][t]]]
    /\ taken' = [d \in Dev |-> IF d = served THEN Append(taken[d], ret) ELSE taken[d]]
    /\ out' = [exc |-> "", ret |-> ret,
               sent |-> [t \in Dev |-> [s \in 1..(cfg.n + 1) |-> IF s <= cfg.n THEN sends[s][t] ELSE <<>>]]]
    /\ UNCHANGED <<cfg, arr>>

(* The application sends a message: it goes to all targets routed from the application *)
Send(m) ==
    /\ out' = [exc |-> "", ret |-> 0,
               sent |-> [t \in Dev |-> [s \in 1..(cfg.n + 1) |->
                            IF s = cfg.n + 1 THEN Rep(m, Cardinality({r \in FromApp : Tgt(r) = t})) ELSE <<>>]]]
    /\ UNCHANGED <<cfg, inq, pend, arr, fwd, taken>>

Do(a) ==
    /\ act' = a
    /\ CASE a.op = "arrive"  -> Arrive(a.d, a.m)
         [] a.op = "receive" -> Receive
         [] a.op = "send"    -> Send(a.m)

-----------------------------------------------------------------------------
Known(s) == SelectSeq(s, LAMBDA m : ~Unknown(m))
RepAll(s, k) == FlattenSeq([i \in 1..Len(s) |-> Rep(s[i], k)])

(* Nothing is lost, duplicated, reordered or invented between the source of a routing and its target *)
ForwardFIFO == \A d, t \in Dev : IsPrefix(fwd[d][t], RepAll(Known(arr[d]), Mult(d, t)))
AppFIFO == \A d \in Dev : IsPrefix(taken[d], arr[d])

(* What is read off a device reaches every destination it is routed to *)
NothingLost ==
    \A d \in Dev :
        LET read == SubSeq(arr[d], 1, Len(arr[d]) - Len(inq[d]))
        IN  /\ \A t \in Dev : fwd[d][t] = RepAll(Known(read), Mult(d, t))
            /\ IsAppSource(d) => read = (IF pend[d] # 0 THEN Append(taken[d], pend[d]) ELSE taken[d])
            /\ ~IsAppSource(d) => taken[d] = <<>>

(* A device without any routing away from it is left alone *)
Untouched == \A d \in Dev : (~IsExtSource(d) /\ ~IsAppSource(d)) => inq[d] = arr[d]

Safety == ForwardFIFO /\ AppFIFO /\ NothingLost /\ Untouched
=============================================================================
