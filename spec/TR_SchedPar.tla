---------------------------- MODULE TR_SchedPar -----------------------------
(* Recorded event histories of a real scheduler are behaviours of SchedPar.  *)
(* The moments at which calls take effect are not logged: TLC finds them.    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tid, i, tasks, last, pend
C == 1..3
S == INSTANCE SchedPar WITH Clients <- C, Limit <- 99
Init == tid \in 1..Len(Traces) /\ i = 0 /\ S!Init
Ev == Traces[tid].ev
Progress == PrintT("@P" \o ToJson([tid |-> tid, i |-> i + 1])) /\
            (i + 1 = Len(Ev) => PrintT("@D" \o ToJson([tid |-> tid])))
Match(e) ==
  CASE e.t = "call" -> S!Call(e.w, e.op, e.d, e.k)
    [] e.t = "ret" -> /\ S!Return(e.w)
                      /\ pend[e.w].e = e.e
                      /\ (pend[e.w].t = "get" => pend[e.w].v = e.v)
    [] e.t = "start" -> \E j \in 1..Len(tasks) : tasks[j].d = e.d /\ tasks[j].k = e.k /\ S!BeginAt(j, Traces[tid].limit)
    [] e.t = "end" -> \E j \in 1..Len(tasks) : tasks[j].d = e.d /\ tasks[j].k = e.k /\ S!End(j)
Next == /\ i < Len(Ev)
        /\ \/ Match(Ev[i + 1]) /\ i' = i + 1 /\ UNCHANGED tid /\ Progress
           \/ (\E c \in C : S!Lin(c)) /\ UNCHANGED <<tid, i>>
Inv == Cardinality(S!Running) <= Traces[tid].limit /\ S!OnceEach
=============================================================================
