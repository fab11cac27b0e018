------------------------------ MODULE MC_Tiles ------------------------------
EXTENDS Tiles, Json, IOUtils
VARIABLES cfg, s, d
Mode == IOEnv.MODE            \* "rect" | "drect" | "rhomb" | "factory"
Big == IOEnv.TIER = "thorough"
Pr(a, b) == {<<x, y>> : x \in a, y \in b}
Sizes == IF Big THEN Pr(1..6, 1..6) ELSE Pr(1..5, 1..3) \cup Pr({2, 3}, {4, 6})
Cfgs == {[m |-> Mode]}
DSizes == Pr(2..(IF Big THEN 9 ELSE 7), 2..(IF Big THEN 9 ELSE 6))
RSizes == Pr(1..(IF Big THEN 9 ELSE 7), 1..(IF Big THEN 9 ELSE 6))
Nx(k, m, f, sp, g, ign) == [t |-> "next", k |-> k, m |-> m, f |-> f, sp |-> sp, d |-> g, ign |-> ign, bi |-> FALSE]
Ops(c, st, k) ==
  CASE Mode = "rect" -> {[t |-> "rect", xy |-> xy, f |-> f, sp |-> sp, ch |-> ch, ign |-> ign] :
                           xy \in Sizes, f \in Pr(1..3, 1..3), sp \in Pr(1..3, 1..2), ch \in 1..2, ign \in BOOLEAN}
                        \cup {[t |-> "coord", xy |-> xy, x |-> x, y |-> y, n |-> 2 * x + y] : xy \in Pr(1..3, 1..3), x \in -1..3, y \in -1..3}
    [] Mode = "drect" -> {[t |-> "drect", xy |-> xy, f |-> f, ch |-> ch, ign |-> ign] :
                            xy \in DSizes, f \in Pr(1..4, 2..4), ch \in 1..2, ign \in BOOLEAN}
    [] Mode = "rhomb" -> {[t |-> "rhomb", xy |-> xy, d |-> g, ch |-> ch] : xy \in RSizes, g \in 1..4, ch \in 1..2}
    [] Mode = "factory" ->
        IF k = 0 THEN {[t |-> "image", xy |-> xy] : xy \in {<<4, 4>>, <<8, 8>>, <<6, 4>>, <<5, 3>>}}
        ELSE {Nx("chan", m, <<1, 1>>, <<1, 1>>, 2, TRUE) : m \in 1..2}
             \cup {Nx("rect", m, f, sp, 2, ign) : m \in 1..2, f \in {<<2, 2>>, <<1, 2>>}, sp \in {<<1, 1>>, <<2, 2>>}, ign \in BOOLEAN}
             \cup {Nx("drect", 1, f, <<1, 1>>, 2, ign) : f \in {<<2, 2>>, <<4, 2>>}, ign \in BOOLEAN}
             \cup {Nx("rhomb", m, <<1, 1>>, <<1, 1>>, 2, TRUE) : m \in 1..2}
Init == cfg \in Cfgs /\ s = Start(cfg) /\ d = 0
Next == /\ d < (IF Mode = "factory" THEN IF Big THEN 4 ELSE 3 ELSE 1)
        /\ \E op \in Ops(cfg, s, d) :
            LET r == Step(cfg, s, op)
            IN /\ s' = r.s
               /\ d' = d + 1
               /\ UNCHANGED cfg
               /\ Assert(StepInv(cfg, s, op, r), <<"StepInv", s, op, r>>)
               /\ PrintT("@T" \o ToJson([c |-> cfg, f |-> s, o |-> op, r |-> r.out, t |-> r.s]))
View == <<cfg, s, d>>
=============================================================================
