------------------------------- MODULE Board -------------------------------
(* The firmware on the board: code.py, the device definitions and the hardware drivers. What happens at the GPIO pins, the    *)
(* ADC, the wheel and the MIDI wires, and what leaves the device as LED colors, bytes on the wires, and text on the screen.   *)
(* Inputs are given by the name printed on the device; the tables below tell at which pins they are wired.                    *)
(* cfg: dev: device ("10", "mini", "nano"); usb, din: [inc: input channel (-1: all), outc: output channel]; routes <<s, t>>   *)
(*      with 0: application, 1: USB, 2: DIN; bridge: MIDI bridge enabled; clear: clear buffers on start; pre: bytes waiting   *)
(*      at the ports; fail: inputs.py is broken; boot: GP1 is held at power on;                                               *)
(*      inp: [n: name, acts: [k "msg" (raw message, LEDs), "cc" (control change), "err" (broken action), num, c: color]] for  *)
(*      switches, [n, num] for pedals and the wheel (num: control number)                                                     *)
(* Messages: <<"cc" | "pc" | "sx" | "no", channel, a, b>> ("no": note, which the firmware has no type for)                    *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC

VARIABLES cfg,
    low,    \* pins pulled to ground
    adc,    \* <<pin 27, pin 28>>
    quad,   \* detents of the wheel (physical)
    I,      \* per input [down, last: pedal value sent, t: time since pedal read, pos, v: wheel]
    q,      \* q[1], q[2]: messages waiting at USB, DIN
    pend,   \* message already forwarded but not yet seen by the application
    lab,    \* text of the label: last value received for controller 119
    run,    \* "": running, else why not
    act, out

vars == <<cfg, low, adc, quad, I, q, pend, lab, run, act, out>>
View == [c |-> cfg, l |-> low, a |-> adc, w |-> quad, i |-> I, q |-> q, p |-> pend, t |-> lab, r |-> run]

(* ---------------------------------------------------------------- wiring of the devices *)
Row(n, g, px) == [n |-> n, g |-> g, px |-> px]
Ten == << Row("1", 1, <<0, 1, 2>>), Row("2", 25, <<3, 4, 5>>), Row("3", 24, <<6, 7, 8>>), Row("4", 23, <<9, 10, 11>>), Row("Up", 20, <<12, 13, 14>>),
          Row("A", 9, <<15, 17, 16>>), Row("B", 10, <<18, 20, 19>>), Row("C", 11, <<21, 23, 22>>), Row("D", 18, <<24, 26, 25>>), Row("Down", 19, <<27, 29, 28>>),
          Row("ExpSw1", 27, <<>>), Row("ExpSw2", 28, <<>>), Row("WhlButton", 0, <<>>), Row("Exp1", 27, <<>>), Row("Exp2", 28, <<>>), Row("Wheel", 2, <<>>) >>
Mini == << Row("1", 1, <<0, 1, 2>>), Row("2", 25, <<3, 4, 5>>), Row("3", 24, <<6, 7, 8>>), Row("A", 9, <<9, 11, 10>>), Row("B", 10, <<12, 14, 13>>), Row("C", 11, <<15, 17, 16>>) >>
Nano == << Row("1", 1, <<0, 1, 2>>), Row("2", 25, <<3, 4, 5>>), Row("A", 9, <<6, 8, 7>>), Row("B", 10, <<9, 11, 10>>) >>
Table(c) == CASE c.dev = "10" -> Ten [] c.dev = "mini" -> Mini [] c.dev = "nano" -> Nano
Entry(c, n) == LET T == Table(c) IN T[CHOOSE k \in DOMAIN T : T[k].n = n]
Gpio(i) == Entry(cfg, cfg.inp[i].n).g
Pixels(c, i) == Entry(c, c.inp[i].n).px
Pedal(i) == cfg.inp[i].n \in {"Exp1", "Exp2"}
Wheel(i) == cfg.inp[i].n = "Wheel"
Top(S) == IF S = {} THEN -1 ELSE CHOOSE x \in S : \A y \in S : x >= y
NumLeds(c) == 1 + Top(UNION {ToSet(Pixels(c, i)) : i \in DOMAIN c.inp})
(* The actions of a switch which use its LEDs share them in order: one action gets all, two: two and one, three: one each *)
LedUsers(a) == SelectSeq([k \in DOMAIN a |-> k], LAMBDA k : a[k].k # "cc")
ActionAt(c, i, k) ==     \* which action owns LED number k (1..3) of switch i
    LET u == LedUsers(c.inp[i].acts) n == Len(u)
    IN CASE n = 0 -> 0 [] n = 1 -> u[1] [] n = 2 -> IF k < 3 THEN u[1] ELSE u[2] [] OTHER -> u[k]
Light(col) == [x \in 1..3 |-> (col[x] * 20) \div 100]
LedOf(c, x) ==
    LET own == {<<i, k>> \in (DOMAIN c.inp) \X (1..3) : Len(Pixels(c, i)) = 3 /\ Pixels(c, i)[k] = x}
    IN IF own = {} THEN <<0, 0, 0>>
       ELSE LET o == CHOOSE o \in own : TRUE a == ActionAt(c, o[1], o[2]) IN IF a = 0 THEN <<127, 127, 127>> ELSE Light(c.inp[o[1]].acts[a].c)
Leds(c) == TLCEval([x \in 1..NumLeds(c) |-> LedOf(c, x - 1)])

(* ---------------------------------------------------------------- MIDI *)
Port(d) == IF d = 1 THEN cfg.usb ELSE cfg.din
Bytes(m, ch) == CASE m[1] = "cc" -> <<176 + ch, m[3], m[4]>> [] m[1] = "pc" -> <<192 + ch, m[3]>> [] m[1] = "sx" -> <<240, 0, 32, 51, m[3], m[4], 247>>
                  [] m[1] = "raw" -> m[2] [] OTHER -> <<>>
Hears(d, m) == m[1] \in {"sx", "no"} \/ Port(d).inc = -1 \/ Port(d).inc = m[2]
Dev == {1, 2}
Src(r) == cfg.routes[r][1]
Tgt(r) == cfg.routes[r][2]
Rts == DOMAIN cfg.routes
ExtSrc(d) == \E r \in Rts : Src(r) = d /\ Tgt(r) # 0
AppSrc(d) == \E r \in Rts : Src(r) = d /\ Tgt(r) = 0
None == <<"", 0, 0, 0>>
Copies(s, t) == Cardinality({r \in Rts : Src(r) = s /\ Tgt(r) = t})
Put(S, t, m, n) == [S EXCEPT !.tx[t] = FoldLeft(LAMBDA x, k : x \o Bytes(m, Port(t).outc), @, [k \in 1..n |-> k])]
Send(S, m) == LET S1 == Put(S, 1, m, Copies(0, 1)) IN Put(S1, 2, m, Copies(0, 2))

(* One poll: sources with external targets give one message each; then the application gets the first message available *)
Pull(S, d) ==
    IF ~ExtSrc(d) \/ S.pend[d] # None \/ S.q[d] = <<>> THEN S
    ELSE LET m == Head(S.q[d])
             S1 == [S EXCEPT !.q[d] = Tail(@), !.pend[d] = IF AppSrc(d) THEN m ELSE None]
         IN S1
Poll(S) ==
    LET P == [d \in Dev |-> IF ExtSrc(d) /\ S.pend[d] = None /\ S.q[d] # <<>> THEN Head(S.q[d]) ELSE None]
        S1 == Pull(Pull(S, 1), 2)
        S2 == FoldLeft(LAMBDA T, r : IF Src(r) # 0 /\ Tgt(r) # 0 /\ P[Src(r)] # None THEN Put(T, Tgt(r), P[Src(r)], 1) ELSE T, S1, [r \in Rts |-> r])
        ToApp == SelectSeq([r \in Rts |-> r], LAMBDA r : Tgt(r) = 0)
        Avail(d) == IF ExtSrc(d) THEN S2.pend[d] ELSE IF S2.q[d] # <<>> THEN Head(S2.q[d]) ELSE None
        c == SelectSeq(ToApp, LAMBDA r : Avail(Src(r)) # None)
        d == Src(c[1])
    IN IF c = <<>> THEN [S2 EXCEPT !.got = None]
       ELSE [S2 EXCEPT !.got = Avail(d), !.pend[d] = None, !.q[d] = IF ExtSrc(d) THEN @ ELSE Tail(@)]

(* ---------------------------------------------------------------- inputs *)
Raw(S, i) == S.adc[IF Gpio(i) = 27 THEN 1 ELSE 2]
Quant(raw) == IF raw < 1024 THEN 0 ELSE LET w == (raw + 256) \div 512 IN IF w > 127 THEN 127 ELSE w
Perform(S, i, on) ==
    FoldLeft(LAMBDA T, k : LET a == cfg.inp[i].acts[k]
                           IN IF T.run # "" THEN T
                              ELSE CASE a.k = "msg" -> Send(T, <<"raw", IF on THEN <<144, a.num, 100>> ELSE <<128, a.num, 0>>>>)
                                     [] a.k = "cc" -> Send(T, <<"cc", 0, a.num, IF on THEN 127 ELSE 0>>)
                                     [] a.k = "err" -> IF on THEN [T EXCEPT !.run = "err"] ELSE T,
             S, [k \in DOMAIN cfg.inp[i].acts |-> k])
Process(S, i) ==
    IF S.run # "" THEN S
    ELSE IF Pedal(i) THEN
        LET v == Quant(Raw(S, i)) x == S.I[i] S1 == [S EXCEPT !.I[i].t = 0, !.I[i].last = v]
        IN IF x.t <= 41 THEN S ELSE IF v = x.last THEN S1 ELSE Send(S1, <<"cc", 0, cfg.inp[i].num, v>>)
    ELSE IF Wheel(i) THEN
        LET x == S.I[i] w == x.v + (S.quad - x.pos) v == IF w < 0 THEN 0 ELSE IF w > 127 THEN 127 ELSE w
            S1 == [S EXCEPT !.I[i].pos = S.quad, !.I[i].v = v]
        IN IF v = x.v THEN S1 ELSE Send(S1, <<"cc", 0, cfg.inp[i].num, v>>)
    ELSE LET p == Gpio(i) \in S.low IN IF p = S.I[i].down THEN S ELSE Perform([S EXCEPT !.I[i].down = p], i, p)
Pass(S) == FoldLeft(Process, S, [i \in DOMAIN cfg.inp |-> i])
Take(S) == IF S.got[1] = "cc" /\ S.got[3] = 119 THEN [S EXCEPT !.lab = ToString(S.got[4])] ELSE S
RECURSIVE Loop(_, _)
Loop(S, n) == LET S1 == Pass(S) S2 == Take(Poll(S1)) IN IF S1.run # "" THEN S1 ELSE IF S2.got = None \/ n >= 10 THEN S2 ELSE Loop(S2, n + 1)
RECURSIVE Drop(_)
Drop(S) == LET S1 == Poll(S) IN IF S1.got = None THEN S1 ELSE Drop(S1)

Work(c) == [I |-> I, q |-> q, pend |-> pend, lab |-> lab, run |-> run, got |-> None, tx |-> <<<<>>, <<>>>>, low |-> low, adc |-> adc, quad |-> quad]
Died(what) == (IF cfg.bridge THEN "bridge " ELSE "raised ") \o what
Finish(S) == [S EXCEPT !.run = IF @ = "err" THEN Died("OSError") ELSE @]
Obs(S) == [exc |-> "", run |-> S.run, usb |-> S.tx[1], din |-> S.tx[2], leds |-> IF cfg.fail THEN <<>> ELSE Leds(cfg), lab |-> IF cfg.fail THEN "" ELSE S.lab]

(* Unheard channels are filtered at the port *)
Arrivals(d, ms) == SelectSeq(ms, LAMBDA m : Hears(d, m))

(* Power on: boot.py (USB drive only if switch 1 is held, else the program may write), display, ports, LED chain; then the *)
(* messages which wait are dropped (if configured), else processed before anything else happens                           *)
InitWith(c) ==
    /\ cfg = c
    /\ low = {} /\ adc = <<0, 0>> /\ quad = 0
    /\ act = [op |-> "init"]
    /\ LET S0 == [I |-> [i \in DOMAIN c.inp |-> [down |-> FALSE, last |-> -1, t |-> 42, pos |-> 0, v |-> 0]], q |-> <<Arrivals(1, c.pre[1]), Arrivals(2, c.pre[2])>>,
                  pend |-> <<None, None>>, lab |-> "", run |-> "", got |-> None, tx |-> <<<<>>, <<>>>>,
                  low |-> {}, adc |-> <<0, 0>>, quad |-> 0]
           S == IF c.fail THEN [S0 EXCEPT !.run = Died("KeyError")] ELSE Loop(IF c.clear THEN Drop(S0) ELSE S0, 0)
       IN /\ I = S.I /\ q = S.q /\ pend = S.pend /\ lab = S.lab /\ run = S.run
          /\ out = [drive |-> c.boot, writable |-> ~c.boot, reload |-> FALSE, disp |-> <<14, 15, 12, 13, 240, 240, 80, 180>>,
                    uart |-> IF \E r \in DOMAIN c.routes : 2 \in {c.routes[r][1], c.routes[r][2]} THEN <<<<16, 17, 31250>>>> ELSE <<>>,
                    bridged |-> c.bridge] @@ Obs(S)

(* a: [dt, pins: GPIO pins which change their level, adc, quad, usb, din: messages]. *)
Do(a) ==
    LET g == ToSet(a.pins)
        S0 == [Work(cfg) EXCEPT !.low = (low \ g) \cup (g \ low), !.adc = a.adc, !.quad = a.quad, !.q = <<@[1] \o Arrivals(1, a.usb), @[2] \o Arrivals(2, a.din)>>,
                                !.I = [i \in DOMAIN @ |-> [@[i] EXCEPT !.t = IF @ + a.dt > 42 THEN 42 ELSE @ + a.dt]]]
        S2 == Finish(Loop(S0, 0))
    IN
    /\ low' = S0.low /\ adc' = a.adc /\ quad' = a.quad
    /\ IF run # "" THEN
            UNCHANGED <<I, q, pend, lab, run>> /\ out' = Obs(Work(cfg))
       ELSE /\ I' = S2.I /\ q' = S2.q /\ pend' = S2.pend /\ lab' = S2.lab /\ run' = S2.run
            /\ out' = Obs(S2)
    /\ act' = a
    /\ UNCHANGED cfg
------------------------------------------------------------------------------
(* LEDs which belong to no switch stay dark; wiring is unambiguous *)
Wiring == \A i, j \in DOMAIN cfg.inp : i # j => ToSet(Pixels(cfg, i)) \cap ToSet(Pixels(cfg, j)) = {}
Safety == Wiring
(* Nothing is sent without a cause; no port which is not routed to sends; a dead program does nothing *)
StepOK == /\ (run # "") => out'.usb = <<>> /\ out'.din = <<>> /\ out'.run = run
          /\ (~\E r \in Rts : Tgt(r) = 1) => out'.usb = <<>>
          /\ (~\E r \in Rts : Tgt(r) = 2) => out'.din = <<>>
=============================================================================
