------------------------------ MODULE FlowRun -------------------------------
(* mdp.Flow and mdp.CheckpointFlow: training, execution, inversion, the      *)
(* checkpoint functions and crash recovery.                                  *)
(*                                                                           *)
(* A chunk of data is the sequence of its rows, each row one integer.  Node  *)
(* number i (from 1) maps a row v to 10v+i when it executes and to 10v+4+i   *)
(* when it inverts, so that every value records the way it took.  The hooks  *)
(* of a call are the user-supplied methods it invokes, over all nodes, in    *)
(* order: <<node, kind, phase, rows>>.                                       *)
EXTENDS Integers, Sequences, FiniteSets, TLC

\* cfg.nodes[i] = [tr : trainable, n : phases, args : required train arguments,
\*                 inv : invertible, pre : already trained];  cfg.cp : checkpoint flow
\* cfg.cr : crash recovery "no" | "auto" | "name"

NodeInit(nd) == [phase |-> IF ~nd.tr THEN -1 ELSE IF nd.pre THEN nd.n ELSE 0,
                 started |-> FALSE, training |-> nd.tr /\ ~nd.pre,
                 seen |-> nd.tr /\ nd.pre]

Start(cfg) == [ns |-> [i \in 1..Len(cfg.nodes) |-> NodeInit(cfg.nodes[i])],
               attrs |-> <<>>]

\* the machine running one call: node states, hooks so far, index of the hook
\* that fails, exception class and how it surfaced
M0(s, fail) == [ns |-> s.ns, h |-> <<>>, fail |-> fail, e |-> "", attrs |-> s.attrs,
                warn |-> 0]

Ok(m) == m.e = ""
Raise(m, e) == [m EXCEPT !.e = e]

Hook(m, i, kind, ph, rows) ==
  LET k == Len(m.h) + 1 IN
  [m EXCEPT !.h = Append(@, <<i, kind, ph, rows>>), !.e = IF k = m.fail THEN "ValueError" ELSE ""]

\* a chunk is [rows, args, bad]; a bad one has the wrong rank
CheckX(m, i, x) == IF x.bad THEN Raise(m, "NodeException") ELSE [m EXCEPT !.ns[i].seen = TRUE]

NTrain(cfg, m, i, x, nargs) ==
  LET nd == cfg.nodes[i] IN
  IF nargs # nd.args THEN Raise(m, "TypeError")      \* signature of the user's _train
  ELSE IF ~nd.tr THEN Raise(m, "IsNotTrainableException")
  ELSE IF ~m.ns[i].training THEN Raise(m, "TrainingFinishedException")
  ELSE LET a == CheckX(m, i, x) IN
       IF ~Ok(a) THEN a
       ELSE Hook([a EXCEPT !.ns[i].started = TRUE], i, "train", m.ns[i].phase, x.rows)

NStop(cfg, m, i) ==
  LET st == m.ns[i] IN
  IF st.training /\ ~st.started THEN Raise(m, "TrainingException")
  ELSE IF ~st.training THEN Raise(m, "TrainingFinishedException")
  ELSE LET a == Hook(m, i, "stop", st.phase, <<>>) IN
       IF ~Ok(a) THEN a
       ELSE [a EXCEPT !.ns[i].phase = @ + 1, !.ns[i].started = FALSE,
                      !.ns[i].training = (st.phase + 1 < cfg.nodes[i].n)]

NClose(cfg, m, i) ==
  IF ~m.ns[i].training THEN m
  ELSE LET a == NStop(cfg, m, i) IN
       IF ~Ok(a) THEN a
       ELSE IF a.ns[i].training THEN Raise(a, "TrainingException") ELSE a

RECURSIVE NAuto(_, _, _, _)
NAuto(cfg, m, i, x) ==
  LET a == NTrain(cfg, m, i, x, 0) IN
  IF ~Ok(a) THEN a
  ELSE IF cfg.nodes[i].n - a.ns[i].phase > 1
       THEN LET b == NStop(cfg, a, i) IN IF ~Ok(b) THEN b ELSE NAuto(cfg, b, i, x)
       ELSE a

\* node i executes: <<machine, data>>
NExec(cfg, m, i, x) ==
  LET a == IF m.ns[i].phase = 0 /\ ~m.ns[i].started THEN NAuto(cfg, m, i, x) ELSE m
      b == IF Ok(a) THEN NClose(cfg, a, i) ELSE a
      c == IF Ok(b) THEN CheckX(b, i, x) ELSE b
      d == IF Ok(c) THEN Hook(c, i, "exec", -1, x.rows) ELSE c
  IN <<d, [x EXCEPT !.rows = [k \in DOMAIN x.rows |-> 10 * x.rows[k] + i]]>>

NInv(cfg, m, i, x) ==
  LET a == IF ~cfg.nodes[i].inv THEN Raise(m, "IsNotInvertibleException") ELSE m
      b == IF Ok(a) THEN NClose(cfg, a, i) ELSE a
      \* inverting needs known dimensions
      c == IF Ok(b) THEN (IF b.ns[i].seen /\ ~x.bad THEN b ELSE Raise(b, "NodeException")) ELSE b
      d == IF Ok(c) THEN Hook(c, i, "inv", -1, x.rows) ELSE c
  IN <<d, [x EXCEPT !.rows = [k \in DOMAIN x.rows |-> 10 * x.rows[k] + 4 + i]]>>

\* an exception in node i surfaces as FlowExceptionCR naming the node; with
\* crash recovery the flow is dumped in its present state
Crash(m, i) == [m EXCEPT !.e = "FlowExceptionCR", !.fail = 0] @@
               [par |-> m.e, at |-> i, dump |-> m.ns]

RECURSIVE ExecSeq(_, _, _, _, _)
ExecSeq(cfg, m, x, i, last) ==
  IF i > last THEN <<m, x>>
  ELSE LET r == NExec(cfg, m, i, x) IN
       IF Ok(r[1]) THEN ExecSeq(cfg, r[1], r[2], i + 1, last)
       ELSE <<Crash(r[1], i), x>>

RECURSIVE InvSeq(_, _, _, _)
InvSeq(cfg, m, x, i) ==
  IF i < 1 THEN <<m, x>>
  ELSE LET r == NInv(cfg, m, i, x) IN
       IF Ok(r[1]) THEN InvSeq(cfg, r[1], r[2], i - 1)
       ELSE <<Crash(r[1], i), x>>

\* one pass over the chunks from number k on, training node i
RECURSIVE Pass(_, _, _, _, _)
Pass(cfg, m, i, chunks, k) ==
  IF k > Len(chunks) THEN m
  ELSE LET c == chunks[k]
           nd == cfg.nodes[i]
       IN IF nd.args > 0 /\ c.args # nd.args THEN Raise(m, "FlowException")
          ELSE LET r == ExecSeq(cfg, m, c, 1, i - 1) IN
               IF ~Ok(r[1]) THEN r[1]
               ELSE LET t == NTrain(cfg, r[1], i, r[2], c.args) IN
                    IF ~Ok(t) THEN t ELSE Pass(cfg, t, i, chunks, k + 1)

RECURSIVE TrainLoop(_, _, _, _, _)
TrainLoop(cfg, m, i, it, first) ==
  LET chunks == IF it.k = "iter" /\ ~first THEN <<>> ELSE it.chunks
      a == Pass(cfg, m, i, chunks, 1)
  IN IF ~Ok(a) THEN a
     ELSE IF Len(chunks) = 0 THEN Raise(a, "FlowException")
     ELSE IF cfg.nodes[i].n - a.ns[i].phase > 1 /\ cfg.nodes[i].tr
          THEN LET b == NStop(cfg, a, i) IN
               IF ~Ok(b) THEN b ELSE TrainLoop(cfg, b, i, it, FALSE)
          ELSE a

TrainNode(cfg, m, i, it) ==
  LET nd == cfg.nodes[i] IN
  IF it.k # "none" /\ ~nd.tr THEN m
  ELSE IF it.k = "none" /\ m.ns[i].training THEN Raise(m, "FlowException")
  ELSE IF it.k = "none" THEN m
  ELSE LET a == TrainLoop(cfg, m, i, it, TRUE) IN
       IF Ok(a) THEN a
       ELSE IF a.e = "TrainingFinishedException" THEN [a EXCEPT !.e = "", !.warn = @ + 1]
       ELSE IF a.e = "FlowExceptionCR" THEN
              \* a node upstream failed: reported as a plain flow exception
              [a EXCEPT !.e = "FlowException"]
       ELSE Crash(a, i)

\* checkpoint function of node i: "none", "dict" (adds attribute cp<i>), "nil",
\* "stop" (closes the training phase), "raise"
Checkpoint(cfg, m, i, f) ==
  CASE f = "none" -> m
    [] f = "nil"  -> Hook(m, i, "cp", m.ns[i].phase, <<>>)
    [] f = "dict" -> LET a == Hook(m, i, "cp", m.ns[i].phase, <<>>) IN
                     IF Ok(a) THEN [a EXCEPT !.attrs = IF \E j \in DOMAIN @ : @[j] = i THEN @
                                                      ELSE Append(@, i)] ELSE a
    [] f = "stop" -> LET a == Hook(m, i, "cp", m.ns[i].phase, <<>>) IN
                     IF Ok(a) THEN NStop(cfg, a, i) ELSE a

CloseLast(cfg, m) ==
  LET i == Len(cfg.nodes)
      a == NStop(cfg, m, i)
  IN IF Ok(a) THEN a
     ELSE IF a.e = "TrainingFinishedException" THEN [a EXCEPT !.e = ""]
     ELSE Crash(a, i)

RECURSIVE TrainAll(_, _, _, _, _)
TrainAll(cfg, m, its, cps, i) ==
  IF i > Len(cfg.nodes) THEN CloseLast(cfg, m)
  ELSE LET a == TrainNode(cfg, m, i, its[i])
           b == IF Ok(a) /\ cfg.cp THEN Checkpoint(cfg, a, i, cps[i]) ELSE a
       IN IF ~Ok(b) THEN b ELSE TrainAll(cfg, b, its, cps, i + 1)

\* data: [k |-> "array", chunks] | [k |-> "notlist"] | [k |-> "list", its]
\* cps:  [k |-> "one", f] | [k |-> "list", fs]
TrainFlow(cfg, s, data, cps, fail) ==
  LET n == Len(cfg.nodes)
      m == M0(s, fail)
      its == IF data.k = "array"
             THEN [i \in 1..n |-> [k |-> "list", chunks |-> data.chunks]] ELSE data.its
      fs == IF cps.k = "one" THEN [i \in 1..n |-> cps.f] ELSE cps.fs
  IN IF data.k = "notlist" THEN Raise(m, "FlowException")
     ELSE IF \E i \in 1..Len(its) : its[i].k = "nonit" THEN Raise(m, "FlowException")
     ELSE IF Len(its) # n THEN Raise(m, "FlowException")
     ELSE IF cfg.cp /\ Len(fs) # n THEN Raise(m, "FlowException")
     ELSE TrainAll(cfg, m, its, fs, 1)

RECURSIVE Map(_, _, _, _, _, _)
Map(cfg, m, op, chunks, k, acc) ==
  IF k > Len(chunks) THEN <<m, acc>>
  ELSE LET last == IF op.nr = -1 THEN Len(cfg.nodes) ELSE op.nr + 1
           r == IF op.t = "execute" THEN ExecSeq(cfg, m, chunks[k], 1, last)
                ELSE InvSeq(cfg, m, chunks[k], Len(cfg.nodes))
       IN IF Ok(r[1]) THEN Map(cfg, r[1], op, chunks, k + 1, acc \o r[2].rows)
          ELSE <<r[1], acc>>

Out(m, y) == [s |-> [ns |-> m.ns, attrs |-> m.attrs],
              out |-> [e |-> m.e,
                       par |-> IF "par" \in DOMAIN m THEN m.par ELSE "",
                       at |-> IF "at" \in DOMAIN m THEN m.at ELSE 0,
                       dump |-> IF "dump" \in DOMAIN m THEN m.dump ELSE <<>>,
                       h |-> m.h, y |-> y, warn |-> m.warn]]

Step(cfg, s, op) ==
  CASE op.t = "train" -> Out(TrainFlow(cfg, s, op.data, op.cps, op.fail), <<>>)
    [] op.t \in {"execute", "inverse"} ->
         LET m == M0(s, op.fail)
             r == IF op.data.k # "array" /\ Len(op.data.chunks) = 0
                  THEN <<Raise(m, "FlowException"), <<>>>>
                  ELSE Map(cfg, m, op, op.data.chunks, 1, <<>>)
         IN Out(r[1], IF Ok(r[1]) THEN r[2] ELSE <<>>)

----------------------------------------------------------------------------
\* the last phase of a node may stay open until the node is first executed
Ready(cfg, s) == \A i \in 1..Len(cfg.nodes) :
                    s.ns[i].training => (s.ns[i].started /\ s.ns[i].phase = cfg.nodes[i].n - 1)

HooksOf(h, i, kind) == SelectSeq(h, LAMBDA x : x[1] = i /\ x[2] = kind)

\* what a successful training of a fresh flow with lists of chunks delivers:
\* every trainable node gets, in each of its phases, every chunk of its own
\* iterable exactly once, in order, processed by all the nodes before it
RECURSIVE Through(_, _)
Through(rows, upto) == IF upto = 0 THEN rows
                       ELSE [k \in DOMAIN rows |-> 10 * Through(rows, upto - 1)[k] + upto]
RECURSIVE ExpectTrain(_, _, _, _)
ExpectTrain(chunks, i, n, ph) ==
  IF ph = n THEN <<>>
  ELSE [k \in 1..Len(chunks) |-> <<i, "train", ph, Through(chunks[k].rows, i - 1)>>]
       \o ExpectTrain(chunks, i, n, ph + 1)

TrainingDelivers(cfg, s, op, r) ==
  (op.t = "train" /\ r.out.e = "" /\ s = Start(cfg)) =>
    /\ Ready(cfg, r.s) /\ ~r.s.ns[Len(cfg.nodes)].training
    /\ \A i \in 1..Len(cfg.nodes) :
         LET nd == cfg.nodes[i]
             its == IF op.data.k = "array" THEN op.data.chunks ELSE op.data.its[i].chunks
         IN IF nd.tr /\ ~nd.pre
            THEN /\ HooksOf(r.out.h, i, "train") = ExpectTrain(its, i, nd.n, 0)
                 /\ Len(HooksOf(r.out.h, i, "stop")) = r.s.ns[i].phase
            ELSE HooksOf(r.out.h, i, "train") = <<>>

NoRegress(cfg, s, op, r) ==
  \A i \in 1..Len(cfg.nodes) : r.s.ns[i].phase >= s.ns[i].phase

ExecComposes(cfg, s, op, r) ==
  (op.t = "execute" /\ r.out.e = "") =>
     LET last == IF op.nr = -1 THEN Len(cfg.nodes) ELSE op.nr + 1
         RECURSIVE Cat(_)
         Cat(k) == IF k > Len(op.data.chunks) THEN <<>>
                   ELSE Through(op.data.chunks[k].rows, last) \o Cat(k + 1)
     IN r.out.y = Cat(1) /\ \A i \in 1..last : ~r.s.ns[i].training

StepInv(cfg, s, op, r) == /\ TrainingDelivers(cfg, s, op, r) /\ NoRegress(cfg, s, op, r)
                          /\ ExecComposes(cfg, s, op, r)
=============================================================================
