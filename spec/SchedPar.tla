------------------------------ MODULE SchedPar ------------------------------
(* The contract of every scheduler, for any number of client threads: a task  *)
(* is accepted at one moment between call and return of add_task, is bound to *)
(* the callable in force at that moment, runs exactly once with it, at most   *)
(* Limit tasks run at the same time, and get_results takes effect at one      *)
(* moment at which every accepted task is finished, and hands out each result *)
(* exactly once, in task order.                                               *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Clients, Limit

VARIABLES tasks,    \* accepted tasks in order: [d, k, st, taken]
          last,     \* the callable in force, 0 for none
          pend      \* per client the call in progress
vars == <<tasks, last, pend>>

NoOp == [t |-> "none", d |-> 0, k |-> 0, lin |-> FALSE, e |-> "", v |-> <<>>]

Init == tasks = <<>> /\ last = 0 /\ pend = [c \in Clients |-> NoOp]

Call(c, t, d, k) ==
  /\ pend[c].t = "none"
  /\ pend' = [pend EXCEPT ![c] = [NoOp EXCEPT !.t = t, !.d = d, !.k = k]]
  /\ UNCHANGED <<tasks, last>>

LinAdd(c) ==
  LET o == pend[c]
      k == IF o.k = 0 THEN last ELSE o.k
  IN /\ o.t = "add" /\ ~o.lin
     /\ IF k = 0
        THEN pend' = [pend EXCEPT ![c].lin = TRUE, ![c].e = "Exception"] /\ UNCHANGED <<tasks, last>>
        ELSE /\ tasks' = Append(tasks, [d |-> o.d, k |-> k, st |-> "new", taken |-> FALSE])
             /\ last' = k
             /\ pend' = [pend EXCEPT ![c].lin = TRUE]

LinSet(c) ==
  /\ pend[c].t = "set" /\ ~pend[c].lin
  /\ last' = pend[c].k
  /\ pend' = [pend EXCEPT ![c].lin = TRUE]
  /\ UNCHANGED tasks

RECURSIVE Untaken(_, _)
Untaken(q, i) == IF i > Len(q) THEN <<>>
                 ELSE (IF q[i].taken THEN <<>> ELSE <<<<q[i].k, q[i].d>>>>) \o Untaken(q, i + 1)

LinGet(c) ==
  /\ pend[c].t = "get" /\ ~pend[c].lin
  /\ \A i \in 1..Len(tasks) : tasks[i].st = "done"
  /\ pend' = [pend EXCEPT ![c].lin = TRUE, ![c].v = Untaken(tasks, 1)]
  /\ tasks' = [i \in 1..Len(tasks) |-> [tasks[i] EXCEPT !.taken = TRUE]]
  /\ UNCHANGED last

Lin(c) == LinAdd(c) \/ LinSet(c) \/ LinGet(c)

Return(c) ==
  /\ pend[c].t # "none" /\ pend[c].lin
  /\ pend' = [pend EXCEPT ![c] = NoOp]
  /\ UNCHANGED <<tasks, last>>

Running == {i \in 1..Len(tasks) : tasks[i].st = "run"}

BeginAt(i, lim) ==
  /\ tasks[i].st = "new" /\ Cardinality(Running) < lim
  /\ tasks' = [tasks EXCEPT ![i].st = "run"]
  /\ UNCHANGED <<last, pend>>

Begin(i) == BeginAt(i, Limit)

End(i) ==
  /\ tasks[i].st = "run"
  /\ tasks' = [tasks EXCEPT ![i].st = "done"]
  /\ UNCHANGED <<last, pend>>

Next == \/ \E c \in Clients : Lin(c) \/ Return(c)
        \/ \E c \in Clients, t \in {"add", "set", "get"}, d \in 0..9, k \in 0..9 : Call(c, t, d, k)
        \/ \E i \in 1..Len(tasks) : Begin(i) \/ End(i)

Spec == Init /\ [][Next]_vars

Bounded == Cardinality(Running) <= Limit
OnceEach == \A i \in 1..Len(tasks) : tasks[i].taken => tasks[i].st = "done"
=============================================================================
