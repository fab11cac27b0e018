----------------------------- MODULE TR_Cache ----------------------------
EXTENDS Cache, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tid, i, s
Emit(t, k, out, st) == PrintT("@S" \o ToJson([tid |-> t, i |-> k, out |-> out, s |-> st]))
Init == tid \in 1..Len(Traces) /\ i = 0 /\ s = Start(Traces[tid].cfg) /\ Emit(tid, 0, "", s)
Next == /\ i < Len(Traces[tid].ops)
        /\ LET op == Traces[tid].ops[i + 1]
               r == Step(Traces[tid].cfg, s, op)
           IN /\ s' = r.s
              /\ Emit(tid, i + 1, r.out, r.s)
              /\ Assert(StepInv(Traces[tid].cfg, s, op, r), <<"StepInv", tid, i>>)
        /\ i' = i + 1 /\ UNCHANGED tid
=============================================================================
