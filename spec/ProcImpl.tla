------------------------------ MODULE ProcImpl ------------------------------
(* The ProcessScheduler as it is built: one lock, a counter of open tasks, a  *)
(* stack of free workers, one thread per task that talks to its worker, and   *)
(* workers that cache the last callable they were sent.  A callable is tagged *)
(* with an index (doubled here); a task is sent without its callable if the   *)
(* worker is tagged with the same index.  It refines SchedPar.                *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Script,      \* per client its sequence of calls <<[t, d, k], ...>>
          N,           \* number of workers
          Cache,       \* do workers cache callables
          Defect       \* "" or the name of a defect

Clients == 1..Len(Script)
Workers == 1..N
VARIABLES lock, pc, pos, mine, ctr, nopen, last, lidx,
          free,     \* stack of workers without a task
          tag,      \* per worker the index its callable is tagged with
          held,     \* per worker the callable it has cached, 0 for none
          thr,      \* per task [d, k, idx, w, sent, pc]
          box, taken, got,
          fails     \* how often a thread could not be started
vars == <<lock, pc, pos, mine, ctr, nopen, last, lidx, free, tag, held, thr, box, taken, got, fails>>

Init == /\ lock = 0 /\ pc = [c \in Clients |-> "idle"] /\ pos = [c \in Clients |-> 1]
        /\ mine = [c \in Clients |-> 0] /\ ctr = 0
        /\ nopen = 0 /\ last = 0 /\ lidx = -2
        /\ free = [w \in 1..N |-> w] /\ tag = [w \in Workers |-> -2] /\ held = [w \in Workers |-> 0]
        /\ thr = <<>> /\ box = {} /\ taken = {}
        /\ got = [c \in Clients |-> <<>>] /\ fails = 0

Op(c) == Script[c][pos[c]]

Invoke(c) ==
  /\ pc[c] = "idle" /\ pos[c] <= Len(Script[c])
  /\ pc' = [pc EXCEPT ![c] = Op(c).t]
  /\ UNCHANGED <<lock, pos, mine, ctr, nopen, last, lidx, free, tag, held, thr, box, taken, got, fails>>

AddEnter(c) ==
  /\ pc[c] = "add" /\ lock = 0
  /\ LET k == IF Op(c).k = 0 THEN last ELSE Op(c).k
         x == IF Op(c).k = 0 THEN lidx ELSE 2 * (ctr + 1)
     IN IF k = 0 THEN pc' = [pc EXCEPT ![c] = "ret"] /\ UNCHANGED <<lock, ctr, nopen, last, lidx, thr, mine>>
        ELSE /\ lock' = c /\ nopen' = nopen + 1 /\ last' = k /\ lidx' = x /\ ctr' = ctr + 1
             /\ thr' = Append(thr, [d |-> Op(c).d, k |-> k, idx |-> x, w |-> 0, sent |-> 0, pc |-> "new"])
             /\ mine' = [mine EXCEPT ![c] = Len(thr) + 1]
             /\ pc' = [pc EXCEPT ![c] = "place"]
  /\ UNCHANGED <<pos, free, tag, held, box, taken, got, fails>>

AddWait(c) ==
  /\ pc[c] = "place" /\ lock = c /\ free = <<>>
  /\ lock' = 0 /\ pc' = [pc EXCEPT ![c] = "sleep"]
  /\ UNCHANGED <<pos, mine, ctr, nopen, last, lidx, free, tag, held, thr, box, taken, got, fails>>
AddWake(c) ==
  /\ pc[c] = "sleep" /\ lock = 0
  /\ lock' = c /\ pc' = [pc EXCEPT ![c] = "place"]
  /\ UNCHANGED <<pos, mine, ctr, nopen, last, lidx, free, tag, held, thr, box, taken, got, fails>>
\* pop a worker, release the lock, start the thread of the task
AddPlace(c) ==
  /\ pc[c] = "place" /\ lock = c /\ free # <<>>
  /\ thr' = [thr EXCEPT ![mine[c]].w = free[Len(free)], ![mine[c]].pc = "ready"]
  /\ free' = SubSeq(free, 1, Len(free) - 1)
  /\ lock' = 0 /\ pc' = [pc EXCEPT ![c] = "ret"]
  /\ UNCHANGED <<pos, mine, ctr, nopen, last, lidx, tag, held, box, taken, got, fails>>
\* the thread of a task cannot be started: the worker becomes free again
AddFail(c) ==
  /\ pc[c] = "place" /\ lock = c /\ free # <<>> /\ fails < 1
  /\ thr' = [thr EXCEPT ![mine[c]].w = free[Len(free)]]
  /\ free' = SubSeq(free, 1, Len(free) - 1)
  /\ lock' = 0 /\ pc' = [pc EXCEPT ![c] = "failed"] /\ fails' = fails + 1
  /\ UNCHANGED <<pos, mine, ctr, nopen, last, lidx, tag, held, box, taken, got>>
AddAgain(c) ==
  /\ pc[c] = "failed" /\ lock = 0
  /\ free' = Append(free, thr[mine[c]].w) /\ thr' = [thr EXCEPT ![mine[c]].w = 0]
  /\ lock' = c /\ pc' = [pc EXCEPT ![c] = "place"]
  /\ UNCHANGED <<pos, mine, ctr, nopen, last, lidx, tag, held, box, taken, got, fails>>

SetIt(c) ==
  /\ pc[c] = "set" /\ lock = 0
  /\ last' = Op(c).k /\ lidx' = IF Defect = "setindex" THEN lidx ELSE 2 * ctr + 1
  /\ pc' = [pc EXCEPT ![c] = "ret"]
  /\ UNCHANGED <<lock, pos, mine, ctr, nopen, free, tag, held, thr, box, taken, got, fails>>

RECURSIVE Ordered(_)
Ordered(S) == IF S = {} THEN <<>>
              ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y IN <<m>> \o Ordered(S \ {m})

Get(c) ==
  /\ pc[c] = "get" /\ lock = 0 /\ nopen = 0
  /\ got' = [got EXCEPT ![c] = LET q == Ordered(box) IN
                                 [j \in 1..Len(q) |-> <<thr[q[j]].k, thr[q[j]].d>>]]
  /\ taken' = taken \cup box /\ box' = {}
  /\ pc' = [pc EXCEPT ![c] = "ret"]
  /\ UNCHANGED <<lock, pos, mine, ctr, nopen, last, lidx, free, tag, held, thr, fails>>

Back(c) ==
  /\ pc[c] = "ret"
  /\ pc' = [pc EXCEPT ![c] = "idle"] /\ pos' = [pos EXCEPT ![c] = @ + 1]
  /\ mine' = [mine EXCEPT ![c] = 0] /\ got' = [got EXCEPT ![c] = <<>>]
  /\ UNCHANGED <<lock, ctr, nopen, last, lidx, free, tag, held, thr, box, taken, fails>>

\* the thread of a task: decide whether the callable is sent (0: it is not)
Send(i) ==
  LET w == thr[i].w
      x == IF Defect = "lateindex" THEN lidx ELSE thr[i].idx
      same == Cache /\ tag[w] = x
  IN /\ thr[i].pc = "ready"
     /\ tag' = IF Cache THEN [tag EXCEPT ![w] = x] ELSE tag
     /\ thr' = [thr EXCEPT ![i].sent = IF same THEN 0 ELSE thr[i].k, ![i].pc = "sent"]
     /\ UNCHANGED <<lock, pc, pos, mine, ctr, nopen, last, lidx, free, held, box, taken, got, fails>>
\* the worker runs the task with what it was sent, or with what it has
Run(i) ==
  LET w == thr[i].w
      k == IF thr[i].sent = 0 THEN held[w] ELSE thr[i].sent
  IN /\ thr[i].pc = "sent"
     /\ held' = IF Cache THEN [held EXCEPT ![w] = k] ELSE held
     /\ thr' = [thr EXCEPT ![i].pc = "run", ![i].k = k]
     /\ UNCHANGED <<lock, pc, pos, mine, ctr, nopen, last, lidx, free, tag, box, taken, got, fails>>
Done(i) == /\ thr[i].pc = "run" /\ thr' = [thr EXCEPT ![i].pc = "done"]
           /\ UNCHANGED <<lock, pc, pos, mine, ctr, nopen, last, lidx, free, tag, held, box, taken, got, fails>>
Release(i) == /\ thr[i].pc = "done" /\ thr' = [thr EXCEPT ![i].pc = "freed"]
              /\ free' = Append(free, thr[i].w)
              /\ UNCHANGED <<lock, pc, pos, mine, ctr, nopen, last, lidx, tag, held, box, taken, got, fails>>
Store(i) == /\ lock = 0 /\ thr[i].pc = "freed" /\ thr' = [thr EXCEPT ![i].pc = "stored"]
            /\ box' = box \cup {i} /\ nopen' = nopen - 1
            /\ UNCHANGED <<lock, pc, pos, mine, ctr, last, lidx, free, tag, held, taken, got, fails>>

Client(c) == Invoke(c) \/ AddEnter(c) \/ AddWait(c) \/ AddWake(c) \/ AddPlace(c)
             \/ AddFail(c) \/ AddAgain(c) \/ SetIt(c) \/ Get(c) \/ Back(c)
Thread(i) == Send(i) \/ Run(i) \/ Done(i) \/ Release(i) \/ Store(i)
Next == (\E c \in Clients : Client(c)) \/ \E i \in 1..Len(thr) : Thread(i)
MaxT == 6
Fair == /\ \A c \in Clients : SF_vars(AddEnter(c) \/ AddWake(c) \/ AddAgain(c) \/ AddPlace(c) \/ SetIt(c) \/ Get(c))
        /\ \A c \in Clients : WF_vars(Invoke(c) \/ AddWait(c) \/ Back(c))
        /\ \A i \in 1..MaxT : /\ WF_vars(i <= Len(thr) /\ (Send(i) \/ Run(i) \/ Done(i) \/ Release(i)))
                              /\ SF_vars(i <= Len(thr) /\ Store(i))
Spec == Init /\ [][Next]_vars /\ Fair

\* ------------------------------------------------------------- refinement
St(p) == IF p \in {"new", "ready", "sent"} THEN "new" ELSE IF p = "run" THEN "run" ELSE "done"
ATasks == [i \in 1..Len(thr) |-> [d |-> thr[i].d, k |-> thr[i].k, st |-> St(thr[i].pc),
                                  taken |-> i \in taken]]
APend == [c \in Clients |->
  IF pc[c] = "idle" THEN [t |-> "none", d |-> 0, k |-> 0, lin |-> FALSE, e |-> "", v |-> <<>>]
  ELSE [t |-> Op(c).t, d |-> Op(c).d, k |-> Op(c).k, lin |-> pc[c] \notin {"add", "set", "get"},
        e |-> IF pc[c] = "ret" /\ Op(c).t = "add" /\ mine[c] = 0 THEN "Exception" ELSE "",
        v |-> got[c]]]
A == INSTANCE SchedPar WITH tasks <- ATasks, last <- last, pend <- APend, Limit <- N
Contract == A!Spec

InUse == {thr[i].w : i \in {j \in 1..Len(thr) : thr[j].pc \in {"ready", "sent", "run", "done"} \/ (thr[j].pc = "new" /\ thr[j].w # 0)}}
\* a worker serves one task, and is free exactly when it serves none
OneEach == /\ \A i, j \in 1..Len(thr) :
                i # j /\ {thr[i].pc, thr[j].pc} \subseteq {"ready", "sent", "run", "done"} => thr[i].w # thr[j].w
           /\ {free[j] : j \in 1..Len(free)} = Workers \ InUse
           /\ Len(free) = Cardinality(Workers \ InUse)
\* the tag says what the worker has cached once its task runs
TagOK == \A i \in 1..Len(thr) : thr[i].pc = "sent" /\ thr[i].sent = 0 => held[thr[i].w] = thr[i].k
\* once all results are there, all workers are free: shutdown can end them
AllFree == nopen = 0 => Len(free) = N
Finishes == <>(\A c \in Clients : pos[c] > Len(Script[c]) /\ pc[c] = "idle")
=============================================================================
