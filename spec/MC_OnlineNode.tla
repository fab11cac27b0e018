---------------------------- MODULE MC_OnlineNode ---------------------------
EXTENDS OnlineNode, Json, IOUtils
VARIABLES cfg, s, d
Mode == IOEnv.MODE            \* "probe" | "exact"
Big == IOEnv.TIER = "thorough"
F == <<"f4", "f8">>
C(kind, tr, inv, n, pd, supp, types, legacy) ==
  [kind |-> kind, trainable |-> tr, inv |-> inv, n |-> n, pd |-> pd, supp |-> supp, types |-> types, legacy |-> legacy]
IB == <<"incremental", "batch">>
Cfgs == IF Mode = "probe"
        THEN {C("probe", TRUE, TRUE, n, pd, F, IB, lg) : n \in 1..(IF Big THEN 3 ELSE 2), pd \in BOOLEAN, lg \in BOOLEAN}
             \cup {C("probe", TRUE, FALSE, 1, FALSE, <<"f8">>, <<"batch">>, FALSE), C("probe", FALSE, TRUE, 1, FALSE, F, IB, FALSE)}
        ELSE {C("mean", TRUE, TRUE, 1, TRUE, F, <<"incremental">>, TRUE), C("half", TRUE, TRUE, 1, TRUE, F, <<"incremental">>, TRUE),
              C("diff", TRUE, FALSE, 1, TRUE, F, IB, TRUE)}
\* a matrix of n rows and w columns with values divisible by 840 and by 16
M(n, w, z) == [r \in 1..n |-> [c \in 1..w |-> 1680 * (((z + (3 * r * r) + c) % 11) - 4)]]
X(n, w, rank, dt, z) == [x |-> M(n, w, z), cols |-> w, rank |-> rank, dt |-> dt]
Data == {X(2, 2, 2, "f8", 0), X(1, 3, 2, "f8", 0), X(0, 2, 2, "f8", 0), X(1, 2, 1, "f8", 0), X(1, 2, 2, "i8", 0)}
        \cup IF Big THEN {X(3, 2, 2, "f4", 1)} ELSE {X(1, 2, 2, "f4", 0)}
Ops(c, st, k) ==
  IF ~st.made
  THEN IF Mode = "probe" THEN [t : {"new"}, i : {0, 2}, o : {0, 3}, dt : {"", "f4", "f8", "i8"}, rng : {"", "a", "bad"}]
       ELSE {[t |-> "new", i |-> 0, o |-> 0, dt |-> "", rng |-> ""], [t |-> "new", i |-> 2, o |-> 0, dt |-> "f8", rng |-> "a"]}
  ELSE IF Mode = "probe"
  THEN {[t |-> "train", x |-> x, fail |-> f, bad |-> "", a |-> 7] : x \in Data, f \in 0..(IF Big THEN 5 ELSE 3)}
       \cup {[t |-> "train", x |-> X(1, 2, 2, "f8", 0), fail |-> 0, bad |-> b, a |-> 0] : b \in {"args", "params"}}
       \cup {[t |-> "stop", fail |-> f] : f \in 0..2}
       \cup {[t |-> "execute", x |-> x, bad |-> "", fail |-> f] : x \in Data, f \in 0..(IF Big THEN 6 ELSE 2)}
       \cup {[t |-> "execute", x |-> X(1, 2, 2, "f8", 0), bad |-> b, fail |-> 0] : b \in {"args", "params"}}
       \cup {[t |-> "inverse", x |-> x, fail |-> f] : x \in Data, f \in 0..1}
       \cup {[t |-> "seti", n |-> n] : n \in {2, 3}} \cup {[t |-> "seto", n |-> n] : n \in {2, 3}}
       \cup {[t |-> "setdt", dt |-> q] : q \in {"f4", "f8", "i8"}}
       \cup {[t |-> "settt", tt |-> q] : q \in {"incremental", "batch", "other"}}
       \cup {[t |-> "setrng", rng |-> q] : q \in {"", "a", "b", "bad"}}
       \cup {[t |-> "add", o |-> q] : q \in {"online", "node", "flow", "oflow", "bad"}}
  ELSE {[t |-> q, x |-> X(n, 2, 2, "f8", z), bad |-> "", fail |-> 0, a |-> 0] : q \in {"train", "execute"}, n \in 1..3, z \in {5 * k, 5 * k + 2}}
       \cup {[t |-> "inverse", x |-> X(1, 2, 2, "f8", 1), fail |-> 0], [t |-> "stop", fail |-> 0]}
       \cup {[t |-> "settt", tt |-> q] : q \in {"incremental", "batch"}}
Depth == IF Mode = "probe" THEN (IF Big THEN 4 ELSE 3) ELSE (IF Big THEN 5 ELSE 4)
Init == cfg \in Cfgs /\ s = Start(cfg) /\ d = 0
\* averages of at most eight samples are exact
Exact(st) == Mode = "probe" \/ st.iter <= (IF cfg.kind = "half" THEN 4 ELSE 8)
Next == /\ d < Depth
        /\ \E op \in Ops(cfg, s, d) :
            LET r == Step(cfg, s, op)
            IN /\ Exact(r.s)
               /\ s' = r.s
               /\ d' = d + 1
               /\ UNCHANGED cfg
               /\ Assert(StepInv(cfg, s, op, r), <<"StepInv", s, op, r>>)
               /\ PrintT("@T" \o ToJson([c |-> cfg, f |-> s, o |-> op, r |-> r.out, t |-> r.s]))
View == <<cfg, s>>
=============================================================================
