------------------------------ MODULE MC_Sched ------------------------------
EXTENDS Sched, Json, IOUtils
VARIABLES cfg, s
Big == IOEnv.TIER = "thorough"
MaxCnt == IF Big THEN 4 ELSE 3
MaxRes == IF Big THEN 3 ELSE 2
Cfgs == {[kind |-> k, box |-> b, verbose |-> v] :
           k \in {<<"fn", "self">>, <<"fork", "badfork">>} \cup (IF Big THEN {<<"self", "fork", "fn">>} ELSE {}),
           b \in {"ordered", "list", "own"}, v \in IF Big THEN BOOLEAN ELSE {FALSE}}
Ops(c, st) ==
  {[t |-> "add", c |-> k, d |-> d] : k \in 0..Len(c.kind), d \in {-1, 1}}
  \cup {[t |-> "set", c |-> k] : k \in 0..Len(c.kind)}
  \cup {[t |-> "get"], [t |-> "shutdown"]} \cup {[t |-> "with", x |-> x] : x \in BOOLEAN}
  \cup {[t |-> "put", d |-> 3, n |-> n] : n \in IF c.box = "ordered" THEN {IF Len(st.res) = 1 THEN 0 ELSE 2} ELSE {9}}
Init == cfg \in Cfgs /\ s = Start(cfg)
Next == \E op \in Ops(cfg, s) :
          LET r == Step(cfg, s, op)
          IN /\ s' = r.s /\ UNCHANGED cfg
             /\ r.s.cnt <= MaxCnt /\ Len(r.s.res) <= MaxRes /\ r.s.ends <= 1
             /\ Assert(StepInv(cfg, s, op, r), <<"StepInv", s, op, r>>)
             /\ PrintT("@T" \o ToJson([c |-> cfg, f |-> s, o |-> op, r |-> r.out, t |-> r.s]))
=============================================================================
