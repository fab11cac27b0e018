------------------------------- MODULE Copies -------------------------------
(* Copies and saved states of nodes and flows.  What an object has been      *)
(* through is the list of the operations it accepted.  A copy has been       *)
(* through the same; whatever happens to one object is never visible in      *)
(* another one.  The driver turns the lists into real results by leading a   *)
(* fresh object through the same operations.                                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC

\* cfg: [kind : class, phases : number of training phases, whole : a flow, which is trained in one go]
\* object: [ph : phase, log : accepted operations, dead : ruined on purpose]
Start(cfg) == [objs |-> <<>>, bad |-> FALSE]
Ok(s) == [s |-> s, out |-> [e |-> FALSE]]
Refuse(s) == [s |-> s, out |-> [e |-> TRUE]]
Open(cfg, o) == o.ph <= cfg.phases
Trained(o) == Len(o.log) > 0 /\ o.log[Len(o.log)] # "s"

Step(cfg, s, op) ==
  CASE op.t = "new" -> Ok([s EXCEPT !.objs = <<[ph |-> 1, log |-> <<>>, dead |-> FALSE]>>])
    \* c: "1", "2", ... a chunk of data
    [] op.t = "train" ->
         LET o == s.objs[op.j] IN
         IF ~Open(cfg, o) THEN Refuse(s)
         ELSE Ok([s EXCEPT !.objs[op.j].log = Append(o.log, op.c), !.objs[op.j].ph = IF cfg.whole THEN o.ph + 1 ELSE o.ph])
    [] op.t = "stop" ->
         LET o == s.objs[op.j] IN
         IF ~Open(cfg, o) \/ ~Trained(o) THEN Refuse(s)
         ELSE Ok([s EXCEPT !.objs[op.j].log = Append(o.log, "s"), !.objs[op.j].ph = o.ph + 1])
    \* execution of something trained (it may remember what it has seen)
    [] op.t = "exec" ->
         LET o == s.objs[op.j] IN
         IF Open(cfg, o) THEN Refuse(s) ELSE Ok([s EXCEPT !.objs[op.j].log = Append(o.log, "x")])
    \* way: "copy", "deep", "string", "text", "file", "zero" (text file)
    [] op.t = "copy" -> Ok([s EXCEPT !.objs = Append(s.objs, s.objs[op.j])])
    \* everything the object holds is overwritten
    [] op.t = "ruin" -> Ok([s EXCEPT !.objs[op.j].dead = TRUE])

StepInv(cfg, s, op, r) ==
  /\ op.t # "new" => \A k \in 1..Len(s.objs) : (op.t = "copy" \/ k # op.j) => r.s.objs[k] = s.objs[k]
  /\ op.t = "copy" => r.s.objs[Len(r.s.objs)] = s.objs[op.j]
  /\ r.out.e => r.s = s
  \* the phase follows from the log
  /\ \A k \in 1..Len(r.s.objs) : LET o == r.s.objs[k] IN
       ~cfg.whole => o.ph = 1 + Cardinality({i \in 1..Len(o.log) : o.log[i] = "s"})
=============================================================================
