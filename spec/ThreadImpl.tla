----------------------------- MODULE ThreadImpl -----------------------------
(* The ThreadScheduler as it is built: one lock, a counter of open tasks, a   *)
(* counter of active threads, and busy waiting.  One action per section       *)
(* between two operations on the lock.  It refines SchedPar.                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Script,      \* per client its sequence of calls <<[t, d, k], ...>>
          N,           \* number of threads
          Counted      \* FALSE: the counter is not incremented (a defect)

Clients == 1..Len(Script)
VARIABLES lock,     \* 0 free, c client, 100 + i the thread of task i
          pc, pos,  \* per client
          mine,     \* per client the number of the task it is adding
          nopen, nactive, last,
          thr,      \* per task [d, k, pc]; pc of its thread
          box,      \* stored results <<index>>
          taken,    \* indices handed out already
          got,      \* what the call in progress of a client returns
          fails     \* how often a thread could not be started
vars == <<lock, pc, pos, mine, nopen, nactive, last, thr, box, taken, got, fails>>

Init == /\ lock = 0 /\ pc = [c \in Clients |-> "idle"] /\ pos = [c \in Clients |-> 1]
        /\ mine = [c \in Clients |-> 0]
        /\ nopen = 0 /\ nactive = 0 /\ last = 0 /\ thr = <<>> /\ box = {} /\ taken = {}
        /\ got = [c \in Clients |-> <<>>] /\ fails = 0

Op(c) == Script[c][pos[c]]

Invoke(c) ==
  /\ pc[c] = "idle" /\ pos[c] <= Len(Script[c])
  /\ pc' = [pc EXCEPT ![c] = Op(c).t]
  /\ UNCHANGED <<lock, pos, mine, nopen, nactive, last, thr, box, taken, got, fails>>

\* add_task: take the lock, count and number the task
AddEnter(c) ==
  /\ pc[c] = "add" /\ lock = 0
  /\ LET k == IF Op(c).k = 0 THEN last ELSE Op(c).k IN
     IF k = 0 THEN pc' = [pc EXCEPT ![c] = "ret"] /\ UNCHANGED <<lock, nopen, last, thr, mine>>
     ELSE /\ lock' = c /\ nopen' = nopen + 1 /\ last' = k
          /\ thr' = Append(thr, [d |-> Op(c).d, k |-> k, pc |-> "new"])
          /\ mine' = [mine EXCEPT ![c] = Len(thr) + 1]
          /\ pc' = [pc EXCEPT ![c] = "place"]
  /\ UNCHANGED <<pos, nactive, box, taken, got, fails>>

\* no thread free: release the lock, sleep, take it again
AddWait(c) ==
  /\ pc[c] = "place" /\ lock = c /\ nactive >= N
  /\ lock' = 0 /\ pc' = [pc EXCEPT ![c] = "sleep"]
  /\ UNCHANGED <<pos, mine, nopen, nactive, last, thr, box, taken, got, fails>>
AddWake(c) ==
  /\ pc[c] = "sleep" /\ lock = 0
  /\ lock' = c /\ pc' = [pc EXCEPT ![c] = "place"]
  /\ UNCHANGED <<pos, mine, nopen, nactive, last, thr, box, taken, got, fails>>
AddPlace(c) ==
  /\ pc[c] = "place" /\ lock = c /\ nactive < N
  /\ nactive' = IF Counted THEN nactive + 1 ELSE nactive
  /\ lock' = 0 /\ pc' = [pc EXCEPT ![c] = "fork"]
  /\ UNCHANGED <<pos, mine, nopen, last, thr, box, taken, got, fails>>
AddStart(c) ==
  /\ pc[c] = "fork"
  /\ thr' = [thr EXCEPT ![mine[c]].pc = "ready"]
  /\ pc' = [pc EXCEPT ![c] = "ret"]
  /\ UNCHANGED <<lock, pos, mine, nopen, nactive, last, box, taken, got, fails>>
\* the thread cannot be started: sleep, take the lock, try again
AddFail(c) ==
  /\ pc[c] = "fork" /\ fails < 1 /\ pc' = [pc EXCEPT ![c] = "failed"] /\ fails' = fails + 1
  /\ UNCHANGED <<lock, pos, mine, nopen, nactive, last, thr, box, taken, got>>
AddAgain(c) ==
  /\ pc[c] = "failed" /\ lock = 0
  /\ lock' = c /\ nactive' = nactive - 1 /\ pc' = [pc EXCEPT ![c] = "place"]
  /\ UNCHANGED <<pos, mine, nopen, last, thr, box, taken, got, fails>>

SetIt(c) ==
  /\ pc[c] = "set" /\ lock = 0
  /\ last' = Op(c).k /\ pc' = [pc EXCEPT ![c] = "ret"]
  /\ UNCHANGED <<lock, pos, mine, nopen, nactive, thr, box, taken, got, fails>>

RECURSIVE Ordered(_)
Ordered(S) == IF S = {} THEN <<>>
              ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y IN <<m>> \o Ordered(S \ {m})

Get(c) ==
  /\ pc[c] = "get" /\ lock = 0 /\ nopen = 0
  /\ got' = [got EXCEPT ![c] = LET q == Ordered(box) IN
                                 [j \in 1..Len(q) |-> <<thr[q[j]].k, thr[q[j]].d>>]]
  /\ taken' = taken \cup box /\ box' = {}
  /\ pc' = [pc EXCEPT ![c] = "ret"]
  /\ UNCHANGED <<lock, pos, mine, nopen, nactive, last, thr, fails>>

Back(c) ==
  /\ pc[c] = "ret"
  /\ pc' = [pc EXCEPT ![c] = "idle"] /\ pos' = [pos EXCEPT ![c] = @ + 1]
  /\ mine' = [mine EXCEPT ![c] = 0] /\ got' = [got EXCEPT ![c] = <<>>]
  /\ UNCHANGED <<lock, nopen, nactive, last, thr, box, taken, fails>>

Th(i, p, q) == /\ thr[i].pc = p /\ thr' = [thr EXCEPT ![i].pc = q]
Run(i) == Th(i, "ready", "run") /\ UNCHANGED <<lock, pc, pos, mine, nopen, nactive, last, box, taken, got, fails>>
Done(i) == Th(i, "run", "done") /\ UNCHANGED <<lock, pc, pos, mine, nopen, nactive, last, box, taken, got, fails>>
Store(i) == /\ lock = 0 /\ Th(i, "done", "stored") /\ box' = box \cup {i} /\ nopen' = nopen - 1
            /\ UNCHANGED <<lock, pc, pos, mine, nactive, last, taken, got, fails>>
Leave(i) == /\ lock = 0 /\ Th(i, "stored", "gone") /\ nactive' = nactive - 1
            /\ UNCHANGED <<lock, pc, pos, mine, nopen, last, box, taken, got, fails>>

Client(c) == Invoke(c) \/ AddEnter(c) \/ AddWait(c) \/ AddWake(c) \/ AddPlace(c) \/ AddStart(c)
             \/ AddFail(c) \/ AddAgain(c) \/ SetIt(c) \/ Get(c) \/ Back(c)
Thread(i) == Run(i) \/ Done(i) \/ Store(i) \/ Leave(i)
Next == (\E c \in Clients : Client(c)) \/ \E i \in 1..Len(thr) : Thread(i)
MaxT == 6
\* strong fairness: nobody is starved by somebody who takes the lock forever
Fair == /\ \A c \in Clients : SF_vars(AddEnter(c) \/ AddWake(c) \/ AddAgain(c) \/ AddPlace(c) \/ SetIt(c) \/ Get(c))
        /\ \A c \in Clients : WF_vars(Invoke(c) \/ AddWait(c) \/ AddStart(c) \/ Back(c))
        /\ \A i \in 1..MaxT : /\ WF_vars(i <= Len(thr) /\ (Run(i) \/ Done(i)))
                              /\ SF_vars(i <= Len(thr) /\ (Store(i) \/ Leave(i)))
Spec == Init /\ [][Next]_vars /\ Fair

\* ------------------------------------------------------------- refinement
St(p) == IF p \in {"new", "ready"} THEN "new" ELSE IF p = "run" THEN "run" ELSE "done"
ATasks == [i \in 1..Len(thr) |-> [d |-> thr[i].d, k |-> thr[i].k, st |-> St(thr[i].pc),
                                  taken |-> i \in taken]]
APend == [c \in Clients |->
  IF pc[c] = "idle" THEN [t |-> "none", d |-> 0, k |-> 0, lin |-> FALSE, e |-> "", v |-> <<>>]
  ELSE [t |-> Op(c).t, d |-> Op(c).d, k |-> Op(c).k, lin |-> pc[c] \notin {"add", "set", "get"},
        e |-> IF pc[c] = "ret" /\ Op(c).t = "add" /\ mine[c] = 0 THEN "Exception" ELSE "",
        v |-> got[c]]]
A == INSTANCE SchedPar WITH tasks <- ATasks, last <- last, pend <- APend, Limit <- N
Contract == A!Spec

Bounded == Cardinality({i \in 1..Len(thr) : thr[i].pc = "run"}) <= N
CountOK == /\ nactive >= 0 /\ (Counted => nactive <= N)
           /\ nopen = Cardinality({i \in 1..Len(thr) : thr[i].pc \notin {"stored", "gone"}})
Finishes == <>(\A c \in Clients : pos[c] > Len(Script[c]) /\ pc[c] = "idle")
=============================================================================
