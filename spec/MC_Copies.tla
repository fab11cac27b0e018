------------------------------ MODULE MC_Copies ------------------------------
EXTENDS Copies, Json, IOUtils
VARIABLES cfg, s, d
Big == IOEnv.TIER = "thorough"
C(k, p, w) == [kind |-> k, phases |-> p, whole |-> w]
Cfgs == {C("SFA", 1, FALSE), C("FDA", 2, FALSE), C("Flow", 1, TRUE), C("Poly", 0, FALSE), C("FlowNode", 2, FALSE), C("Layer2", 2, FALSE), C("Hist", 1, FALSE)}
        \cup IF Big THEN {C("Mean", 1, FALSE), C("Nest", 3, FALSE), C("BiFlowNode", 2, FALSE), C("CCIPCA", 1, FALSE)} ELSE {}
Depth == IF Big THEN 7 ELSE 6
Ways == {"copy", "string", "file"}
Ops(c, st, k) ==
  IF k = 0 THEN {[t |-> "new"]}
  ELSE LET live == {j \in 1..Len(st.objs) : ~st.objs[j].dead} IN
       {[t |-> "train", j |-> j, c |-> x] : j \in live, x \in {"1"} \cup IF k < 4 THEN {"2"} ELSE {}}
       \cup {[t |-> t, j |-> j] : t \in {"stop", "exec"}, j \in live}
       \cup (IF Len(st.objs) < 2 THEN {[t |-> "copy", j |-> j, way |-> w] : j \in live, w \in Ways} ELSE {})
       \cup (IF Len(st.objs) = 2 /\ Cardinality(live) = 2 THEN {[t |-> "ruin", j |-> j] : j \in live} ELSE {})
Init == cfg \in Cfgs /\ s = Start(cfg) /\ d = 0
Next == /\ d < Depth
        /\ \E op \in Ops(cfg, s, d) :
            LET r == Step(cfg, s, op)
            IN /\ s' = r.s
               /\ d' = d + 1
               /\ UNCHANGED cfg
               /\ Assert(StepInv(cfg, s, op, r), <<"StepInv", s, op, r>>)
               /\ PrintT("@T" \o ToJson([c |-> cfg, f |-> s, o |-> op, r |-> r.out, t |-> r.s]))
View == <<cfg, s>>
=============================================================================
