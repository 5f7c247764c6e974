---- MODULE MCRouting ----
EXTENDS Routing
CONSTANT MaxMsgs     \* messages arriving per device

Configs == {
    [n |-> 1, routes |-> << <<1, 0>>, <<0, 1>> >>],                                          \* USB only (default)
    [n |-> 2, routes |-> << <<1, 0>>, <<0, 1>>, <<2, 0>>, <<0, 2>> >>],                      \* USB and DIN at once
    [n |-> 2, routes |-> << <<1, 2>>, <<2, 1>>, <<1, 0>>, <<0, 1>> >>],                      \* through, bidirectional, shared source
    [n |-> 2, routes |-> << <<2, 1>>, <<1, 0>>, <<0, 1>> >>],                                \* through DIN to USB
    [n |-> 2, routes |-> << <<1, 0>>, <<2, 0>>, <<1, 2>>, <<2, 1>>, <<0, 1>>, <<0, 2>> >>],  \* everything everywhere
    [n |-> 3, routes |-> << <<1, 2>>, <<1, 3>>, <<2, 3>>, <<3, 0>>, <<0, 2>> >>],            \* distribute and merge
    [n |-> 2, routes |-> << <<1, 2>>, <<1, 2>>, <<0, 2>>, <<0, 2>>, <<1, 0>> >>],            \* parallel routings
    [n |-> 2, routes |-> << <<1, 1>>, <<1, 0>> >>] }                                         \* loop back

Init == \E c \in Configs : InitWith(c)

Next == \/ \E d \in Dev : /\ Len(arr[d]) < MaxMsgs - (IF cfg.n = 3 THEN 1 ELSE 0)
                          /\ \E k \in (IF Len(arr[d]) = 0 THEN {0, 1} ELSE {0}) :
                                Do([op |-> "arrive", d |-> d, m |-> 100 * d + 10 * Len(arr[d]) + k])
        \/ Do([op |-> "receive"])
        \/ Do([op |-> "send", m |-> 10 * (cfg.n + 1) * 10])
====
