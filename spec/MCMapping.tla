---- MODULE MCMapping ----
EXTENDS Mapping
CONSTANTS Sel
K == <<0, 32, 51>>
Cc(c) == [k |-> "cc", c |-> c, v |-> 0, man |-> <<>>, dat |-> <<>>]
Pc == [k |-> "pc", c |-> 0, v |-> 0, man |-> <<>>, dat |-> <<>>]
Sx(man, f, i, p, a) == [k |-> "sx", c |-> 0, v |-> 0, man |-> man, dat |-> <<0, 0, f, i, p, a>>]
None == [k |-> "none", c |-> 0, v |-> 0, man |-> <<>>, dat |-> <<>>]
R(resp, str, req, set) == [resp |-> resp, str |-> str, req |-> req, set |-> set, list |-> IF Len(set) > 1 THEN 1 ELSE 0]
Cfgs == << [pr |-> <<R(<<Cc(20)>>, 0, 0, <<Cc(20)>>), R(<<Cc(21)>>, 0, 0, <<Cc(22), Cc(21)>>), R(<<Pc>>, 0, 0, <<Pc>>), R(<<Sx(K, 1, 0, 4, 20)>>, 0, 0, <<Sx(K, 1, 0, 4, 20)>>)>>],
           [pr |-> <<R(<<Sx(K, 1, 0, 4, 21)>>, 0, 0, <<Sx(K, 1, 0, 4, 21)>>), R(<<Sx(K, 1, 0, 4, 20)>>, 0, 1, <<>>), R(<<Sx(K, 3, 0, 4, 20)>>, 1, 0, <<>>), R(<<Sx(<<1, 2, 3>>, 1, 0, 4, 20)>>, 0, 0, <<>>)>>],
           [pr |-> <<R(<<Cc(32), Pc>>, 0, 0, <<Cc(32), None, Pc>>), R(<<Cc(33), Cc(32)>>, 0, 1, <<>>), R(<<Cc(32)>>, 0, 0, <<>>)>>] >>
Init == InitWith(Cfgs[Sel])
V14 == <<<<0, 0>>, <<0, 1>>, <<1, 0>>, <<127, 127>>>>
M(t, d, v) == [t EXCEPT !.v = v, !.dat = t.dat \o d]
Msgs == CASE Sel = 1 -> {M(Cc(c), <<>>, v) : c \in {20, 21, 22}, v \in {0, 127}} \cup {M(Pc, <<>>, v) : v \in {0, 5}}
                          \cup {M(Sx(K, 1, 0, 4, 20), V14[i], 0) : i \in 1..4} \cup {M(Sx(K, 1, 0, 4, 19), <<1, 1>>, 0)}
          [] Sel = 2 -> UNION {{M(Sx(K, f, i, p, a), <<3, 4>>, 0) : f \in {1, 3}, a \in {20, 21}} : i \in {0, 1}, p \in {4, 5}} \cup
                        {M(Sx(K, 1, 0, 4, 20), V14[i], 0) : i \in 1..2} \cup {M(Sx(K, 3, 0, 4, 20), d, 0) : d \in {<<0>>, <<65, 66, 0>>, <<65, 0>>}} \cup
                        {M(Sx(<<1, 2, 3>>, 1, 0, 4, 20), <<0, 9>>, 0), M(Sx(<<1, 2, 4>>, 1, 0, 4, 20), <<0, 8>>, 0)}
          [] Sel = 3 -> {M(Cc(c), <<>>, v) : c \in {32, 33, 34}, v \in {0, 1, 127}} \cup {M(Pc, <<>>, v) : v \in {0, 5}}
Next == \/ \E m \in Msgs : Do([op |-> "msg", m |-> m])
        \/ \E i \in P : cfg.pr[i].req = 1 /\ Do([op |-> "ask", p |-> i])
        \/ \E i \in P : \E v \in {0, 1, 127} : cfg.pr[i].set # <<>> /\ Do([op |-> "set", p |-> i, vs |-> [k \in 1..Len(cfg.pr[i].set) |-> (v + k - 1) % 128]])
        \/ \E i \in P : \E v \in {128, 16383} : cfg.pr[i].set # <<>> /\ cfg.pr[i].set[1].k = "sx" /\ Do([op |-> "set", p |-> i, vs |-> <<v>>])
====
