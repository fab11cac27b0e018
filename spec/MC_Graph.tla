------------------------------ MODULE MC_Graph ------------------------------
EXTENDS Graph, Json, IOUtils
VARIABLES cfg, s, d, h
Mode == IOEnv.MODE            \* "all": every graph, "mut": mutations
Big == IOEnv.TIER = "thorough"
Cfgs == {[m |-> Mode]}
Leaf == [kids |-> <<>>]
Ops(st, k) ==
  LET N == Nodes(st) IN
  CASE Mode = "all" -> IF k = 0 THEN {[t |-> "nodes", k |-> n] : n \in 1..(IF Big THEN 4 ELSE 3)}
                       ELSE {[t |-> "edge", h |-> a, d2 |-> b, d |-> k] : a \in N, b \in N}
    [] Mode = "mut" -> {[t |-> "node"], [t |-> "nodes", k |-> 2], [t |-> "nodes", k |-> 0],
                        [t |-> "tree", tree |-> [kids |-> <<Leaf, [kids |-> <<Leaf>>]>>]], [t |-> "tree", tree |-> Leaf]}
                       \cup {[t |-> "edge", h |-> a, d2 |-> b, d |-> k] : a \in N, b \in N}
                       \cup {[t |-> "full", hs |-> <<a>>, ts |-> <<b, a>>] : a \in N, b \in N}
                       \cup {[t |-> "rmnode", a |-> a] : a \in 1..st.n}
                       \cup {[t |-> "rmedge", h |-> e.h, d2 |-> e.t, d |-> e.d] : e \in Set(st.es)}
                       \cup {[t |-> "rmedge", h |-> 1, d2 |-> 1, d |-> 9]}
Init == cfg \in Cfgs /\ s = Start(cfg) /\ d = 0 /\ h = <<>>
Next == /\ d < (IF Mode = "all" THEN 4 ELSE 3) + (IF Big THEN 1 ELSE 0)
        /\ Mode = "mut" => Len(s.ns) < 6
        /\ \E op \in Ops(s, d) :
            LET r == Step(cfg, s, op)
            IN /\ s' = r.s
               /\ d' = d + 1
               /\ h' = IF Mode = "all" THEN Append(h, op) ELSE h
               /\ UNCHANGED cfg
               /\ Assert(StepInv(cfg, s, op, r), <<"StepInv", s, op, r>>)
               /\ IF Mode = "all" THEN PrintT("@H" \o ToJson(h'))
                  ELSE PrintT("@T" \o ToJson([c |-> cfg, f |-> s, o |-> op, r |-> r.out, t |-> r.s]))
View == <<cfg, s, d>>
=============================================================================
