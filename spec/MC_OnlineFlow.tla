---------------------------- MODULE MC_OnlineFlow ---------------------------
EXTENDS OnlineFlow, Json, IOUtils
VARIABLES cfg, s, d
Mode == IOEnv.MODE            \* "run" | "circ" | "list"
Big == IOEnv.TIER = "thorough"
Nd(k, n, a, b, i, o) == [k |-> k, n |-> n, args |-> a, inv |-> k # "tp", batch |-> b, dims |-> <<i, o>>]
On == Nd("on", 1, 0, FALSE, 0, 0)
OnB == Nd("on", 2, 0, TRUE, 0, 0)
OnA == Nd("on", 1, 1, FALSE, 0, 0)
Nt == Nd("nt", 1, 0, FALSE, 0, 0)
Td == Nd("td", 2, 1, FALSE, 1, 0)
Tp(n, a) == Nd("tp", n, a, FALSE, 0, 0)
Id(n) == [k \in 1..n |-> k]
C(circ, nodes) == [circ |-> circ, nodes |-> nodes, init |-> Id(Len(nodes))]
Kinds == {On, OnB, OnA, Nt, Td}
Cfgs == CASE Mode = "run" -> {C(FALSE, <<a, b>>) : a \in Kinds, b \in Kinds \cup {Tp(n, q) : n \in 1..3, q \in 0..1}}
                             \cup {C(FALSE, <<a>>) : a \in {On, OnB, Nt, Tp(2, 0)}}
                             \cup (IF Big THEN {C(FALSE, <<a, b, z>>) : a \in Kinds, b \in Kinds, z \in Kinds \cup {Tp(2, 0)}}
                                   ELSE {C(FALSE, <<a, b, On>>) : a \in {On, OnA}, b \in {OnB, Nt}})
          [] Mode = "circ" -> {C(TRUE, <<a, b>>) : a \in {On, OnB, Nt}, b \in {On, Td, Nt}} \cup {C(TRUE, <<On, Nt, On>>), C(TRUE, <<On>>)}
          [] Mode = "list" -> {[circ |-> c, init |-> q, nodes |-> <<Nd("on", 1, 0, FALSE, 1, 1), Nd("nt", 1, 0, FALSE, 0, 0),
                                                                   Nd("on", 1, 0, FALSE, 1, 2), Nd("tp", 1, 0, FALSE, 1, 1)>>] :
                               c \in BOOLEAN, q \in {<<1, 2>>, <<1, 2, 3>>} \cup IF Big THEN {<<1, 1, 2, 1>>} ELSE {}}
Ch(rows, form, a) == [rows |-> rows, w |-> 1, form |-> form, a |-> a]
XC == {<<Ch(<<3>>, "x", <<>>), Ch(<<4>>, "x", <<>>)>>, <<Ch(<<5, 6>>, "x", <<>>), Ch(<<7, 8>>, "x", <<>>)>>}
Args(c, one) == [p \in 1..Len(c.init) |-> IF c.nodes[c.init[p]].args = 0 THEN <<-1>> ELSE IF one THEN <<p>> ELSE <<>>]
Datas(c) == {[k |-> k, chunks |-> q] : k \in {"array", "list", "iter"}, q \in XC}
            \cup {[k |-> "list", chunks |-> <<Ch(<<3, 4>>, "t", Args(c, b)), Ch(<<5>>, "t", Args(c, TRUE))>>] : b \in BOOLEAN}
            \cup {[k |-> "iter", chunks |-> <<Ch(<<3>>, "t", Args(c, TRUE)), Ch(<<9>>, "t", <<>>)>>]}
            \cup {[k |-> k, chunks |-> <<>>] : k \in {"list", "none", "nonit"}}
Exec(nr, fail) == [t |-> "execute", data |-> [k |-> "array", chunks |-> <<Ch(<<2, 3>>, "x", <<>>)>>], nr |-> nr, fail |-> fail]
Inv == [t |-> "inverse", data |-> [k |-> "array", chunks |-> <<Ch(<<2, 3>>, "x", <<>>)>>], nr |-> -1, fail |-> 0]
L(t, i, sl, v, form) == [t |-> t, i |-> i, sl |-> sl, v |-> v, form |-> form]
Z == <<0, 0, 1>>
Slices == {<<N, 1, N>>, <<1, N, N>>, <<0, 2, 1>>, <<1, 1, N>>, <<N, N, -1>>, <<N, N, 2>>, <<2, 9, N>>, <<0, 0, 0>>} 
          \cup IF Big THEN {<<-2, -1, N>>, <<N, N, N>>, <<9, 0, -2>>} ELSE {}
Ops(c, st) ==
  CASE Mode = "run" -> {[t |-> "train", data |-> q, fail |-> f] : q \in Datas(c), f \in {0, 2, 5}}
                       \cup {Exec(nr, f) : nr \in {-1, 0}, f \in {0, 2}} \cup {Inv}
                       \cup {[t |-> "stop", i |-> i] : i \in 1..Len(c.nodes)}
    [] Mode = "circ" -> {[t |-> "train", data |-> [k |-> k, chunks |-> q], fail |-> f] : k \in {"list", "array"}, q \in XC, f \in {0, 3}}
                        \cup {[t |-> "train", data |-> [k |-> k, chunks |-> <<>>], fail |-> 0] : k \in {"list", "none"}}
                        \cup {Exec(-1, 0), Exec(0, 0), Inv, [t |-> "reset"], [t |-> "stop", i |-> 1]}
                        \cup {[t |-> t, i |-> i] : t \in {"input", "output"}, i \in -1..Len(c.init)}
                        \cup {[t |-> "store", c |-> [Ch(<<11>>, "x", <<>>) EXCEPT !.w = w]] : w \in 1..2}
                        \cup {[t |-> "ignore", b |-> b] : b \in BOOLEAN} \cup {[t |-> "iterations", i |-> i] : i \in {0, 2}}
    [] Mode = "list" -> {L("get", i, Z, <<>>, "list") : i \in {-1, 0, 3}} \cup {L("contains", i, Z, <<>>, "list") : i \in 0..3}
                        \cup {L(t, 0, sl, <<>>, "list") : t \in {"getsl", "delsl"}, sl \in Slices}
                        \cup {L("setsl", 0, sl, v, fm) : sl \in Slices, v \in {<<>>, <<2>>, <<3, 2>>, <<4>>}, fm \in {"list", "gen"}}
                        \cup {L("set", i, Z, <<v>>, "list") : i \in {0, 1, -1, 4}, v \in 0..4}
                        \cup {L(t, i, Z, <<>>, "list") : t \in {"del", "pop"}, i \in {0, 1, -1, 4}}
                        \cup {L("append", 0, Z, <<v>>, "list") : v \in 0..4}
                        \cup {L("insert", i, Z, <<v>>, "list") : i \in {0, 1, -1}, v \in 1..4}
                        \cup {L(t, 0, Z, <<v>>, "node") : t \in {"add", "iadd"}, v \in 1..3}
                        \cup {L(t, 0, Z, v, fm) : t \in {"add", "iadd", "extend"}, v \in {<<1>>, <<3>>, <<2, 1>>}, fm \in {"flow", "oflow", "list"}}
                        \cup (IF c.circ THEN {[t |-> "output", i |-> i] : i \in 0..2} \cup {[t |-> "input", i |-> 1], [t |-> "reset"]} ELSE {})
Depth == IF Mode = "list" THEN 2 ELSE IF Big THEN 4 ELSE 3
Init == cfg \in Cfgs /\ s = Start(cfg) /\ d = 0
Next == /\ d < Depth /\ ~s.bad
        /\ \E op \in Ops(cfg, s) :
            LET r == Step(cfg, s, op)
            IN /\ s' = r.s
               /\ d' = d + 1
               /\ UNCHANGED cfg
               /\ Assert(StepInv(cfg, s, op, r), <<"StepInv", s, op, r>>)
               /\ PrintT("@T" \o ToJson([c |-> cfg, f |-> s, o |-> op, r |-> r.out, t |-> r.s]))
View == <<cfg, s>>
=============================================================================
