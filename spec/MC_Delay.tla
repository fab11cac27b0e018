------------------------------ MODULE MC_Delay ------------------------------
EXTENDS Delay, Json, IOUtils
VARIABLES cfg, s, d
Big == IOEnv.TIER = "thorough"
C(kind, tf, gap, i, dt) == [kind |-> kind, tf |-> tf, gap |-> gap, i |-> i, dt |-> dt]
Cfgs == {C(k, tf, g, i, dt) : k \in {"frames", "delay", "slide"}, tf \in 1..(IF Big THEN 5 ELSE 4), g \in 1..(IF Big THEN 4 ELSE 3), i \in {0, 2},
                              dt \in {"", "i4"} \cup IF Big THEN {"f4", "u1"} ELSE {}}
X(n, w, dt, z) == [x |-> [r \in 1..n |-> [c \in 1..w |-> 10 * r + c + z]], cols |-> w, rank |-> 2, dt |-> dt]
Fr(c, w, n) == [x |-> Frames(c, X(n + (c.tf - 1) * c.gap, w, "f8", 0).x), cols |-> w * c.tf, rank |-> 2, dt |-> "f8"]
Ops(c, st, k) ==
  IF k = 0 THEN {[t |-> "new"]}
  ELSE {[t |-> "execute", x |-> X(n, 2, dt, 0)] : n \in {0, 1, 2, 4, 7} \cup (IF Big THEN {3, 5, 6, 12} ELSE {}), dt \in {"f8", "i8"}}
       \cup {[t |-> "execute", x |-> X(1, w, dt, 1)] : w \in {1, 2}, dt \in {"f8", "ob"}}
       \cup {[t |-> "execute", x |-> [X(1, 2, "f8", 0) EXCEPT !.rank = 1]]}
       \cup {[t |-> "pinv", x |-> Fr(c, w, n)] : w \in 1..2, n \in {1, 2, 4}}
       \cup {[t |-> "inverse", x |-> Fr(c, 2, 2)]}
       \cup {[t |-> "setin", n |-> n] : n \in {2, 3}} \cup {[t |-> "setout", n |-> n] : n \in {2, 8}}
Init == cfg \in Cfgs /\ s = Start(cfg) /\ d = 0
Next == /\ d < (IF Big THEN 5 ELSE 4)
        /\ \E op \in Ops(cfg, s, d) :
            LET r == Step(cfg, s, op)
            IN /\ s' = r.s
               /\ d' = d + 1
               /\ UNCHANGED cfg
               /\ Assert(StepInv(cfg, s, op, r), <<"StepInv", s, op, r>>)
               /\ PrintT("@T" \o ToJson([c |-> cfg, f |-> s, o |-> op, r |-> r.out, t |-> r.s]))
View == <<cfg, s>>
=============================================================================
