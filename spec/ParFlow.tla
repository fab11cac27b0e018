------------------------------- MODULE ParFlow ------------------------------
(* mdp.parallel.ParallelFlow and ParallelCheckpointFlow: the task interface  *)
(* and training / execution with a scheduler.                                *)
(*                                                                           *)
(* cfg.nodes[i] = [k, n, p0, args]: kind "par" (can be forked), "loc"        *)
(* (cannot), "mix" (only in phase 0), "nt" (not trainable), "col" (not       *)
(* trainable, collects what it executes and must be forked for that); number *)
(* of phases, number of phases closed beforehand, extra arguments.           *)
(* A chunk is the sequence of its rows; node i maps a row v to 10v+i.        *)
(* seen[p] collects the chunks node i was trained with in phase p (col: the  *)
(* chunks executed, in seen[1]).                                             *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Trainable(nd) == nd.k \in {"par", "loc", "mix"}
NodeInit(nd) == [phase |-> IF Trainable(nd) THEN nd.p0 ELSE -1,
                 training |-> Trainable(nd) /\ nd.p0 < nd.n,
                 seen |-> [p \in 1..nd.n |-> <<>>]]
Start(cfg) == [ns |-> [i \in 1..Len(cfg.nodes) |-> NodeInit(cfg.nodes[i])],
               mode |-> "idle",     \* "train" or "exec" while underway
               i |-> 0,             \* node under training
               its |-> <<>>,        \* iterables of this training
               avail |-> <<>>,      \* chunks not handed out yet
               out |-> <<>>,        \* tasks handed out: chunks in order
               first |-> FALSE,     \* the next task carries the callable
               cps |-> <<>>, nr |-> 0, attrs |-> <<>>]

Forkable(nd, st) == nd.k = "par" \/ (nd.k = "mix" /\ st.phase = 0)

RECURSIVE Thru(_, _, _)
Thru(rows, i, last) == IF i > last THEN rows
                       ELSE Thru([j \in DOMAIN rows |-> 10 * rows[j] + i], i + 1, last)

\* the chunk passes nodes 1..last: collecting nodes note what they execute
Collect(cfg, ns, rows, last) ==
  [i \in 1..Len(ns) |-> IF i <= last /\ cfg.nodes[i].k = "col"
                        THEN [ns[i] EXCEPT !.seen[1] = Append(@, Thru(rows, 1, i - 1))] ELSE ns[i]]
\* node i is trained with the chunk
Learn(cfg, ns, i, rows) ==
  [Collect(cfg, ns, rows, i - 1) EXCEPT ![i].seen[ns[i].phase + 1] = Append(@, Thru(rows, 1, i - 1))]
RECURSIVE LearnAll(_, _, _, _, _)
LearnAll(cfg, ns, i, chunks, k) ==
  IF k > Len(chunks) THEN ns ELSE LearnAll(cfg, Learn(cfg, ns, i, chunks[k]), i, chunks, k + 1)
Close(cfg, ns, i) == [ns EXCEPT ![i].phase = @ + 1, ![i].training = (ns[i].phase + 1 < cfg.nodes[i].n)]

Idle(s) == [s EXCEPT !.mode = "idle", !.i = 0, !.its = <<>>, !.avail = <<>>, !.out = <<>>,
                     !.first = FALSE, !.cps = <<>>, !.nr = 0]

Out(e, y) == [e |-> e, y |-> y, call |-> FALSE, cp |-> <<>>]
R(s, out) == [s |-> s, out |-> out]

\* after the last phase of node i its checkpoint function is called
Cp(s, i, cpl) == IF s.cps # <<>> /\ ~s.ns[i].training /\ s.cps[i] # "none"
                 THEN <<[s EXCEPT !.attrs = IF s.cps[i] = "dict" /\ ~\E j \in DOMAIN @ : @[j] = i
                                            THEN Append(@, i) ELSE @], Append(cpl, i)>>
                 ELSE <<s, cpl>>

\* go to the next phase that can be run in parallel; cpl: checkpoints called
RECURSIVE NextPhase(_, _, _, _)
NextPhase(cfg, s, i, cpl) ==
  IF i > Len(cfg.nodes) THEN R(Idle(s), [Out("", <<>>) EXCEPT !.cp = cpl])
  ELSE IF ~s.ns[i].training THEN NextPhase(cfg, s, i + 1, cpl)
  ELSE LET it == s.its[i]
           s1 == [s EXCEPT !.its[i].chunks = IF it.k = "iter" THEN <<>> ELSE @]
       IN IF it.k = "none" THEN R(Idle(s), [Out("error", <<>>) EXCEPT !.cp = cpl])
          ELSE IF Len(it.chunks) = 0 THEN R(Idle(s), [Out("FlowException", <<>>) EXCEPT !.cp = cpl])
          ELSE IF Forkable(cfg.nodes[i], s.ns[i])
          THEN R([s1 EXCEPT !.mode = "train", !.i = i, !.avail = it.chunks, !.out = <<>>, !.first = TRUE],
                 [Out("", <<>>) EXCEPT !.cp = cpl])
          ELSE LET s2 == [s1 EXCEPT !.ns = Close(cfg, LearnAll(cfg, s.ns, i, it.chunks, 1), i)]
                   c == Cp(s2, i, cpl)
               IN NextPhase(cfg, c[1], i, c[2])

Its(cfg, data) == IF data.k = "array" THEN [i \in 1..Len(cfg.nodes) |-> [k |-> "list", chunks |-> data.chunks]]
                  ELSE data.its

BadData(cfg, data) == data.k = "notlist" \/ (data.k = "list" /\ (Len(data.its) # Len(cfg.nodes)
                                               \/ \E i \in DOMAIN data.its : data.its[i].k = "nonit"))

Setup(cfg, s, op) ==
  IF s.mode = "train" THEN R(s, Out("ParallelFlowException", <<>>))
  ELSE IF cfg.cp /\ op.cps.k = "list" /\ Len(op.cps.fs) # Len(cfg.nodes) THEN R(s, Out("FlowException", <<>>))
  ELSE IF BadData(cfg, op.data) THEN R(s, Out("FlowException", <<>>))
  ELSE LET fs == IF ~cfg.cp THEN <<>>
                 ELSE IF op.cps.k = "one" THEN [j \in 1..Len(cfg.nodes) |-> op.cps.f] ELSE op.cps.fs
       IN NextPhase(cfg, [Idle(s) EXCEPT !.its = Its(cfg, op.data), !.cps = fs], 1, <<>>)

SetupExec(cfg, s, op) ==
  IF s.mode = "train" THEN R(s, Out("ParallelFlowException", <<>>))
  ELSE IF op.data.chunks = <<>> THEN R(Idle(s), Out("FlowException", <<>>))
  ELSE R([Idle(s) EXCEPT !.mode = "exec", !.avail = op.data.chunks, !.first = TRUE, !.nr = op.nr],
         Out("", <<>>))

Get(s) ==
  IF s.avail = <<>> THEN R(s, Out("NoTaskException", <<>>))
  ELSE R([s EXCEPT !.avail = Tail(@), !.out = Append(@, Head(s.avail)), !.first = FALSE],
         [Out("", <<Head(s.avail)>>) EXCEPT !.call = s.first])

Last(cfg, nr) == IF nr = -1 THEN Len(cfg.nodes) ELSE nr + 1
RECURSIVE ExecAll(_, _, _, _, _)
ExecAll(cfg, ns, chunks, last, k) ==
  IF k > Len(chunks) THEN ns ELSE ExecAll(cfg, Collect(cfg, ns, chunks[k], last), chunks, last, k + 1)
RECURSIVE Cat(_, _, _)
Cat(chunks, last, k) == IF k > Len(chunks) THEN <<>> ELSE Thru(chunks[k], 1, last) \o Cat(chunks, last, k + 1)

\* all tasks handed out are run (in any order) and their results used
Use(cfg, s) ==
  IF s.mode = "train"
  THEN LET s1 == [s EXCEPT !.ns = Close(cfg, LearnAll(cfg, s.ns, s.i, s.out, 1), s.i)]
           c == Cp(s1, s.i, <<>>)
       IN NextPhase(cfg, [c[1] EXCEPT !.avail = <<>>, !.out = <<>>, !.first = FALSE], s.i, c[2])
  ELSE R(Idle([s EXCEPT !.ns = ExecAll(cfg, s.ns, s.out, Last(cfg, s.nr), 1)]),
         Out("", Cat(s.out, Last(cfg, s.nr), 1)))

\* train: set up, run all phases; the fail-th task of the run raises (0: none)
RECURSIVE RunAll(_, _, _, _)
RunAll(cfg, r, fail, cpl) ==
  LET n == Len(r.s.avail) IN
  IF r.out.e # "" \/ r.s.mode # "train" THEN R(r.s, [r.out EXCEPT !.cp = cpl])
  ELSE IF fail > 0 /\ fail <= n THEN R(Idle(r.s), [Out("ValueError", <<>>) EXCEPT !.cp = cpl])
  ELSE LET u == Use(cfg, [r.s EXCEPT !.out = r.s.avail, !.avail = <<>>]) IN
       RunAll(cfg, u, IF fail > n THEN fail - n ELSE 0, cpl \o u.out.cp)
Train(cfg, s, op) ==
  LET r == Setup(cfg, s, op) IN RunAll(cfg, r, op.fail, r.out.cp)

Execute(cfg, s, op) ==
  LET r == SetupExec(cfg, s, op) IN
  IF r.out.e # "" THEN r
  ELSE IF op.fail > 0 /\ op.fail <= Len(r.s.avail) THEN R(Idle(r.s), Out("ValueError", <<>>))
  ELSE Use(cfg, [r.s EXCEPT !.out = r.s.avail, !.avail = <<>>])

Step(cfg, s, op) ==
  CASE op.t = "setup" -> Setup(cfg, s, op)
    [] op.t = "setupx" -> SetupExec(cfg, s, op)
    [] op.t = "get" -> Get(s)
    [] op.t = "use" -> Use(cfg, s)
    [] op.t = "train" -> Train(cfg, s, op)
    [] op.t = "execute" -> Execute(cfg, s, op)

\* what plain sequential training would have given every node
RECURSIVE SeqNode(_, _, _, _)
SeqNode(cfg, ns, i, chunks) ==
  IF ~ns[i].training THEN ns
  ELSE SeqNode(cfg, Close(cfg, LearnAll(cfg, ns, i, chunks, 1), i), i, chunks)
RECURSIVE SeqTrain(_, _, _, _)
SeqTrain(cfg, ns, its, i) ==
  IF i > Len(its) THEN ns ELSE SeqTrain(cfg, SeqNode(cfg, ns, i, its[i].chunks), its, i + 1)

\* properties of every step
StepInv(cfg, s, op, r) ==
  /\ (op.t = "train" /\ s.mode = "idle" /\ r.out.e = "" =>
        r.s.ns = SeqTrain(cfg, s.ns, Its(cfg, op.data), 1))            \* parallel = sequential
  /\ (r.out.e \in {"ParallelFlowException", "NoTaskException"} => r.s = s)
  /\ (r.s.mode = "train" => r.s.ns[r.s.i].training /\ Forkable(cfg.nodes[r.s.i], r.s.ns[r.s.i]))
  /\ (op.t \in {"train", "execute"} /\ s.mode = "idle" => r.s.mode = "idle")
  /\ (\A i \in 1..Len(s.ns) : r.s.ns[i].phase >= s.ns[i].phase)
  /\ (op.t = "use" /\ s.mode = "exec" => Len(r.out.y) > 0)
=============================================================================
