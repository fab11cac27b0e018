----------------------------- MODULE OnlineFlow ----------------------------
(* mdp.OnlineFlow and mdp.CircularOnlineFlow: training all nodes on every     *)
(* chunk, execution, inversion, the circular flow's input/output positions,   *)
(* stored input and iterations, and the container operations.                 *)
(* Rows are single integers; node i executes v as (7v+i) mod 9973 and inverts  *)
(* as (5v+3+i) mod 9973.  Hooks: [i, k : kind, p : phase, x : rows, a : args]. *)
EXTENDS Integers, Sequences, FiniteSets, TLC

\* cfg: [circ : BOOLEAN, init : node numbers, nodes : seq of
\*   [k : "on" online | "nt" not trainable | "td" trained | "tp" trainable,
\*    n : phases, args : required training arguments, inv, batch : BOOLEAN,
\*    dims : <<input, output>> with 0 for unset]]
MOD == 9973
N == 99

NodeInit(nd) == [phase |-> IF nd.k = "nt" THEN -1 ELSE IF nd.k = "td" THEN nd.n ELSE 0,
                 started |-> FALSE, training |-> nd.k \in {"on", "tp"}, iter |-> 0,
                 i |-> nd.dims[1], o |-> nd.dims[2]]

Start(cfg) == [f |-> cfg.init, ns |-> [k \in 1..Len(cfg.nodes) |-> NodeInit(cfg.nodes[k])],
               out |-> Len(cfg.init) - 1, stored |-> <<FALSE, <<>>>>, ign |-> FALSE, it |-> 1, bad |-> FALSE]

M0(s, fail) == [ns |-> s.ns, h |-> <<>>, fail |-> fail, e |-> "", par |-> "", at |-> -1,
                st |-> s.stored]
Ok(m) == m.e = ""
Raise(m, e) == [m EXCEPT !.e = e]
Hook(m, i, kind, ph, rows, a) ==
  LET k == Len(m.h) + 1 IN
  [m EXCEPT !.h = Append(@, [i |-> i, k |-> kind, p |-> ph, x |-> rows, a |-> a]),
            !.e = IF k = m.fail THEN "ValueError" ELSE ""]

\* chunks: [rows, w : width (1 is right), form : "x" | "t", a : argument lists;
\*          <<-1>> stands for None]
CheckX(m, i, c) ==
  LET st == m.ns[i]
      m2 == [m EXCEPT !.ns[i].i = IF @ = 0 THEN c.w ELSE @]
  IN IF c.w # m2.ns[i].i \/ Len(c.rows) = 0 THEN Raise(m2, "NodeException") ELSE m2

RECURSIVE Rows(_, _, _, _, _, _)
\* present the blocks to all phases of online node i
Rows(cfg, m, i, blocks, p, a) ==
  IF blocks = <<>> THEN m
  ELSE IF p = cfg.nodes[i].n
       THEN Rows(cfg, [m EXCEPT !.ns[i].iter = @ + Len(blocks[1])], i, Tail(blocks), 0, a)
       ELSE LET b == Hook(m, i, "train", p, blocks[1], a)
            IN IF Ok(b) THEN Rows(cfg, b, i, blocks, p + 1, a) ELSE b

NTrain(cfg, m, i, c, a) ==
  LET nd == cfg.nodes[i]
      b == CheckX(m, i, c)
      b2 == [b EXCEPT !.ns[i].started = TRUE]
  IN \* the signature of the training hook
     IF Len(a) # nd.args THEN Raise(m, "TypeError")
     ELSE IF ~Ok(b) THEN b
     ELSE IF nd.k = "on"
          THEN Rows(cfg, b2, i, IF nd.batch THEN <<c.rows>> ELSE [r \in 1..Len(c.rows) |-> <<c.rows[r]>>], 0, a)
          ELSE Hook(b2, i, "train", m.ns[i].phase, c.rows, a)

NStop(cfg, m, i) ==
  LET st == m.ns[i] IN
  IF st.training /\ ~st.started THEN Raise(m, "TrainingException")
  ELSE IF ~st.training THEN Raise(m, "TrainingFinishedException")
  ELSE IF cfg.nodes[i].k = "on"
  THEN LET RECURSIVE H(_, _)
           H(q, p) == IF p = cfg.nodes[i].n \/ ~Ok(q) THEN q ELSE H(Hook(q, i, "stop", p, <<>>, <<>>), p + 1)
           a == H(m, 0)
       IN IF Ok(a) THEN [a EXCEPT !.ns[i].phase = cfg.nodes[i].n, !.ns[i].started = FALSE, !.ns[i].training = FALSE] ELSE a
  ELSE LET a == Hook(m, i, "stop", st.phase, <<>>, <<>>) IN
       IF ~Ok(a) THEN a
       ELSE [a EXCEPT !.ns[i].phase = @ + 1, !.ns[i].started = FALSE,
                      !.ns[i].training = (st.phase + 1 < cfg.nodes[i].n)]

RECURSIVE NAuto(_, _, _, _)
NAuto(cfg, m, i, c) ==
  LET a == NTrain(cfg, m, i, c, <<>>) IN
  IF ~Ok(a) THEN a
  ELSE IF cfg.nodes[i].k = "tp" /\ cfg.nodes[i].n - a.ns[i].phase > 1
       THEN LET b == NStop(cfg, a, i) IN IF ~Ok(b) THEN b ELSE NAuto(cfg, b, i, c)
       ELSE a

NClose(cfg, m, i) ==
  IF cfg.nodes[i].k # "tp" \/ ~m.ns[i].training THEN m
  ELSE LET a == NStop(cfg, m, i) IN
       IF ~Ok(a) THEN a ELSE IF a.ns[i].training THEN Raise(a, "TrainingException") ELSE a

Dims(m, i) == [m EXCEPT !.ns[i].o = IF @ = 0 THEN m.ns[i].i ELSE @]

NExec(cfg, m, i, c) ==
  LET a == IF m.ns[i].phase = 0 /\ ~m.ns[i].started THEN NAuto(cfg, m, i, c) ELSE m
      a2 == IF Ok(a) THEN NClose(cfg, a, i) ELSE a
      b == IF Ok(a2) THEN CheckX(a2, i, c) ELSE a2
      d == IF Ok(b) THEN Hook(Dims(b, i), i, "exec", -1, c.rows, <<>>) ELSE b
  IN <<d, [c EXCEPT !.rows = [k \in DOMAIN c.rows |-> (7 * c.rows[k] + i) % MOD]]>>

NInv(cfg, m, i, c) ==
  LET a == IF ~cfg.nodes[i].inv THEN Raise(m, "IsNotInvertibleException") ELSE m
      a2 == IF Ok(a) THEN NClose(cfg, a, i) ELSE a
      b == IF Ok(a2) THEN Dims(a2, i) ELSE a2
      b2 == IF ~Ok(b) THEN b ELSE IF b.ns[i].o = 0 \/ c.w # b.ns[i].o THEN Raise(b, "NodeException") ELSE b
      d == IF Ok(b2) THEN Hook(b2, i, "inv", -1, c.rows, <<>>) ELSE b2
  IN <<d, [c EXCEPT !.rows = [k \in DOMAIN c.rows |-> (5 * c.rows[k] + 3 + i) % MOD]]>>

\* an error inside the node at position `at` (from 0) of the flow
Crash(m, at) == [m EXCEPT !.e = "FlowExceptionCR", !.par = m.e, !.at = at, !.fail = 0]

RECURSIVE ExecSeq(_, _, _, _, _, _)
ExecSeq(cfg, m, f, c, p, last) ==
  IF p > last THEN <<m, c>>
  ELSE LET r == NExec(cfg, m, f[p], c) IN
       IF Ok(r[1]) THEN ExecSeq(cfg, r[1], f, r[2], p + 1, last) ELSE <<Crash(r[1], p - 1), c>>
RECURSIVE InvSeq(_, _, _, _, _)
InvSeq(cfg, m, f, c, p) ==
  IF p < 1 THEN <<m, c>>
  ELSE LET r == NInv(cfg, m, f[p], c) IN
       IF Ok(r[1]) THEN InvSeq(cfg, r[1], f, r[2], p - 1) ELSE <<Crash(r[1], p - 1), c>>

\* one chunk through an online flow: every node that is still training learns
\* from it, then passes its output on; a plain node that is still learning (the
\* last one) is not executed, for that would end its training
RECURSIVE Chunk(_, _, _, _, _)
Chunk(cfg, m, f, c, p) ==
  IF p > Len(f) THEN m
  ELSE LET i == f[p]
           nd == cfg.nodes[i]
           t == IF ~m.ns[i].training THEN m
                ELSE IF nd.args = 0 THEN NTrain(cfg, m, i, c, <<>>)
                ELSE IF c.form = "x" THEN Raise(m, "IndexError")
                ELSE IF c.a[p] = <<-1>> THEN Raise(m, "TypeError")
                ELSE IF Len(c.a[p]) # nd.args THEN Raise(m, "OnlineFlowException")
                ELSE NTrain(cfg, m, i, c, c.a[p])
       IN IF ~Ok(t) THEN Crash(t, p - 1)
          ELSE IF nd.k = "tp" /\ t.ns[i].training THEN t
          ELSE LET r == NExec(cfg, t, i, c) IN
               IF Ok(r[1]) THEN Chunk(cfg, r[1], f, r[2], p + 1) ELSE Crash(r[1], p - 1)

RECURSIVE Chunks(_, _, _, _, _)
Chunks(cfg, m, f, cs, k) ==
  IF k > Len(cs) \/ ~Ok(m) THEN m
  ELSE IF cs[k].form = "t" /\ Len(cs[k].a) # Len(f) THEN Raise(m, "OnlineFlowException")
  ELSE Chunks(cfg, Chunk(cfg, m, f, cs[k], 1), f, cs, k + 1)

\* the data is presented once per remaining phase of a terminal plain node
RECURSIVE Passes(_, _, _, _, _)
Passes(cfg, m, f, data, first) ==
  LET cs == IF data.k = "iter" /\ ~first THEN <<>> ELSE data.chunks
      z == f[Len(f)]
      a == Chunks(cfg, m, f, cs, 1)
  IN IF ~Ok(a) THEN a
     ELSE IF cs = <<>> THEN Raise(a, "FlowException")
     ELSE IF cfg.nodes[z].k = "tp" /\ cfg.nodes[z].n - a.ns[z].phase > 1
          THEN LET b == NStop(cfg, a, z)
               IN IF Ok(b) THEN Passes(cfg, b, f, data, FALSE) ELSE b
          ELSE a

TrainOnline(cfg, s, data, fail) ==
  LET m == M0(s, fail)
      f == s.f
      z == f[Len(f)]
      a == Passes(cfg, m, f, data, TRUE)
  IN IF data.k = "none" THEN Raise(m, "TypeError")
     ELSE IF data.k = "nonit" THEN Raise(m, "FlowException")
     ELSE IF ~Ok(a) \/ cfg.nodes[z].k = "on" THEN a
     ELSE LET b == NStop(cfg, a, z)
          IN IF Ok(b) THEN b
             ELSE IF b.e = "TrainingFinishedException" THEN [b EXCEPT !.e = ""]
             ELSE Crash(b, Len(f) - 1)

\* circular flows: one loop of all nodes; the output is the next input
RECURSIVE Loop(_, _, _, _, _)
Loop(cfg, m, f, c, p) ==
  IF p > Len(f) THEN <<m, c>>
  ELSE LET i == f[p]
           t == IF m.ns[i].training THEN NTrain(cfg, m, i, c, <<>>) ELSE m
       IN IF ~Ok(t) THEN <<Crash(t, p - 1), c>>
          ELSE LET r == NExec(cfg, t, i, c) IN
               IF Ok(r[1]) THEN Loop(cfg, r[1], f, r[2], p + 1) ELSE <<Crash(r[1], p - 1), c>>
RECURSIVE Loops(_, _, _, _, _)
Loops(cfg, m, f, c, n) ==
  IF n = 0 THEN m
  ELSE LET r == Loop(cfg, m, f, c, 1) IN
       IF Ok(r[1]) THEN Loops(cfg, [r[1] EXCEPT !.st = <<TRUE, r[2].rows>>], f, r[2], n - 1) ELSE r[1]
RECURSIVE Circle(_, _, _, _, _)
Circle(cfg, m, s, cs, k) ==
  IF k > Len(cs) \/ ~Ok(m) THEN m
  ELSE LET c == IF s.ign THEN [cs[k] EXCEPT !.rows = m.st[2], !.w = 1] ELSE cs[k]
       IN IF s.ign /\ ~m.st[1] /\ s.it > 0 THEN [Raise(m, "FlowExceptionCR") EXCEPT !.at = 0,
                                           !.par = IF m.ns[s.f[1]].training /\ cfg.nodes[s.f[1]].args > 0 THEN "TypeError" ELSE "AttributeError"]
          ELSE Circle(cfg, Loops(cfg, m, s.f, c, s.it), s, cs, k + 1)

RECURSIVE Map(_, _, _, _, _, _, _)
Map(cfg, m, f, op, chunks, last, acc) ==
  IF chunks = <<>> THEN <<m, acc>>
  ELSE LET r == IF op.t = "execute" THEN ExecSeq(cfg, m, f, chunks[1], 1, last)
                ELSE InvSeq(cfg, m, f, chunks[1], last)
       IN IF Ok(r[1]) THEN Map(cfg, r[1], f, op, Tail(chunks), last, acc \o r[2].rows) ELSE <<r[1], <<>>>>

Out(s, m, y) == [s |-> [s EXCEPT !.ns = m.ns, !.stored = m.st],
                 out |-> [e |-> m.e, par |-> m.par, at |-> m.at, h |-> m.h, y |-> y]]

\* ------------------------------------------------------------ container
Consistent(s, q) ==
  \A i \in 1..(Len(q) - 1) : LET o == s.ns[q[i]].o n == s.ns[q[i + 1]].i IN o = 0 \/ n = 0 \/ o = n
\* a node that may stand anywhere: online, trained or not trainable
Fit(cfg, s, k) == k # 0 /\ (cfg.nodes[k].k = "tp" => ~s.ns[k].training)
\* the last node of an online flow may also be a trainable one
Compatible(cfg, s, q) ==
  /\ \A i \in 1..(Len(q) - 1) : Fit(cfg, s, q[i])
  /\ IF cfg.circ THEN Len(q) > 0 => Fit(cfg, s, q[Len(q)]) ELSE Len(q) > 0 /\ q[Len(q)] # 0

Clip(x, lo, hi) == IF x < lo THEN lo ELSE IF x > hi THEN hi ELSE x
SliceOf(len, a, b, c) ==
  LET st == IF c = N THEN 1 ELSE c
      lo == IF st > 0 THEN 0 ELSE -1
      hi == IF st > 0 THEN len ELSE len - 1
      norm(x) == Clip(IF x < 0 THEN x + len ELSE x, lo, hi)
      b0 == IF a = N THEN (IF st > 0 THEN 0 ELSE len - 1) ELSE norm(a)
      e0 == IF b = N THEN (IF st > 0 THEN len ELSE -1) ELSE norm(b)
      cnt == IF st > 0 THEN (IF b0 < e0 THEN (e0 - b0 - 1) \div st + 1 ELSE 0)
             ELSE (IF e0 < b0 THEN (b0 - e0 - 1) \div (-st) + 1 ELSE 0)
  IN <<b0, st, cnt>>
Positions(len, sl) == LET t == SliceOf(len, sl[1], sl[2], sl[3]) IN {t[1] + (k - 1) * t[2] : k \in 1..t[3]}
GetSlice(q, sl) == LET t == SliceOf(Len(q), sl[1], sl[2], sl[3]) IN [k \in 1..t[3] |-> q[t[1] + (k - 1) * t[2] + 1]]
RECURSIVE DelIdx(_, _, _)
DelIdx(q, S, k) == IF k > Len(q) THEN <<>>
                   ELSE (IF (k - 1) \in S THEN <<>> ELSE <<q[k]>>) \o DelIdx(q, S, k + 1)
SetSlice(q, sl, v) ==
  LET t == SliceOf(Len(q), sl[1], sl[2], sl[3]) IN
  IF t[2] = 1 THEN <<TRUE, SubSeq(q, 1, t[1]) \o v \o SubSeq(q, t[1] + t[3] + 1, Len(q))>>
  ELSE IF Len(v) # t[3] THEN <<FALSE, q>>
  ELSE <<TRUE, [k \in 1..Len(q) |->
                  IF \E j \in 1..t[3] : t[1] + (j - 1) * t[2] + 1 = k
                  THEN v[CHOOSE j \in 1..t[3] : t[1] + (j - 1) * t[2] + 1 = k] ELSE q[k]]>>

CR(s, e, v) == [s |-> s, out |-> [e |-> IF e THEN "error" ELSE "", par |-> "", at |-> -1, h |-> <<>>, y |-> v]]

\* accept the sequence q with the output node at position out (circular flows),
\* or refuse and keep everything
Accept(cfg, s, q, out, v) ==
  IF Consistent(s, q) /\ Compatible(cfg, s, q)
  THEN CR([s EXCEPT !.f = q, !.out = IF cfg.circ THEN out ELSE @, !.bad = (q = <<>>)], FALSE, v)
  ELSE CR(s, TRUE, <<>>)

\* the output node of a circular flow is a node, not a position: it moves with
\* the insertions and deletions before it, and falls back to the last node when
\* it is itself replaced or removed
OutAfterDel(s, S) == LET n == Len(s.f) IN
  IF s.out \in S THEN n - Cardinality(S) - 1
  ELSE s.out - Cardinality({p \in S : p < s.out})
OutAfterSet(s, sl, v) ==
  LET n == Len(s.f)
      t == SliceOf(n, sl[1], sl[2], sl[3])
      n2 == n - t[3] + Len(v)
  IN IF s.out \in Positions(n, sl) THEN n2 - 1
     ELSE IF t[2] = 1 /\ s.out >= t[1] THEN s.out + n2 - n ELSE s.out

Derived(cfg, s, q) == IF Consistent(s, q) /\ Compatible(cfg, s, q) THEN CR(s, FALSE, q) ELSE CR(s, TRUE, <<>>)

Container(cfg, s, op) ==
  LET f == s.f
      n == Len(f)
      inr == op.i + n >= 0 /\ op.i < n
      ix == IF op.i < 0 THEN op.i + n ELSE op.i
      fits == \A k \in 1..Len(op.v) : Fit(cfg, s, op.v[k])
      put(sl) == LET r == SetSlice(f, sl, op.v)
                 IN IF fits /\ r[1] THEN Accept(cfg, s, r[2], OutAfterSet(s, sl, op.v), <<>>) ELSE CR(s, TRUE, <<>>)
  IN CASE op.t = "get" -> IF inr THEN CR(s, FALSE, <<f[ix + 1]>>) ELSE CR(s, TRUE, <<>>)
       [] op.t = "getsl" -> IF op.sl[3] = 0 THEN CR(s, TRUE, <<>>) ELSE Derived(cfg, s, GetSlice(f, op.sl))
       [] op.t = "set" -> IF ~fits \/ ~inr THEN CR(s, TRUE, <<>>)
                          ELSE Accept(cfg, s, [f EXCEPT ![ix + 1] = op.v[1]], IF ix = s.out THEN n - 1 ELSE s.out, <<>>)
       [] op.t = "setsl" -> IF op.sl[3] = 0 THEN CR(s, TRUE, <<>>) ELSE put(op.sl)
       [] op.t \in {"del", "pop"} ->
            IF ~inr THEN CR(s, TRUE, <<>>)
            ELSE Accept(cfg, s, DelIdx(f, {ix}, 1), OutAfterDel(s, {ix}), IF op.t = "pop" THEN <<f[ix + 1]>> ELSE <<>>)
       [] op.t = "delsl" -> IF op.sl[3] = 0 THEN CR(s, TRUE, <<>>)
                            ELSE Accept(cfg, s, DelIdx(f, Positions(n, op.sl), 1), OutAfterDel(s, Positions(n, op.sl)), <<>>)
       [] op.t = "append" -> put(<<n, n, N>>)
       [] op.t = "extend" -> IF op.form = "list" THEN CR(s, TRUE, <<>>) ELSE put(<<n, n, N>>)
       [] op.t = "insert" -> put(<<op.i, op.i, N>>)
       \* a circular flow is joined with online nodes and online flows only
       [] op.t \in {"add", "iadd"} ->
            IF op.form = "list" THEN CR(s, TRUE, <<>>)
            ELSE IF cfg.circ /\ op.form = "node" /\ cfg.nodes[op.v[1]].k # "on" THEN CR(s, TRUE, <<>>)
            ELSE IF cfg.circ /\ op.form = "flow" THEN CR(s, TRUE, <<>>)
            ELSE IF op.t = "add" THEN Derived(cfg, s, f \o op.v)
            ELSE Accept(cfg, s, f \o op.v, s.out, <<>>)
       [] op.t = "contains" -> CR(s, FALSE, <<IF \E k \in 1..n : f[k] = op.i THEN 1 ELSE 0>>)

Rotate(f, k) == [p \in 1..Len(f) |-> f[((p - 1 + k) % Len(f)) + 1]]

Circular(cfg, s, op) ==
  LET n == Len(s.f) IN
  CASE op.t = "input" -> IF op.i < 0 \/ op.i >= n THEN CR(s, TRUE, <<>>)
                         ELSE CR([s EXCEPT !.f = Rotate(s.f, op.i), !.out = ((s.out - op.i) + n) % n], FALSE, <<>>)
    [] op.t = "output" -> IF op.i < 0 \/ op.i >= n THEN CR(s, TRUE, <<>>) ELSE CR([s EXCEPT !.out = op.i], FALSE, <<>>)
    [] op.t = "reset" -> CR([s EXCEPT !.out = n - 1], FALSE, <<>>)
    [] op.t = "store" -> LET w == s.ns[s.f[1]].i IN
                         IF w # 0 /\ w # op.c.w THEN CR(s, TRUE, <<>>) ELSE CR([s EXCEPT !.stored = <<TRUE, op.c.rows>>, !.bad = op.c.w # 1], FALSE, <<>>)
    [] op.t = "ignore" -> CR([s EXCEPT !.ign = op.b], FALSE, <<>>)
    [] op.t = "iterations" -> CR([s EXCEPT !.it = op.i], FALSE, <<>>)

Step(cfg, s, op) ==
  CASE op.t = "train" ->
         IF ~cfg.circ THEN Out(s, TrainOnline(cfg, s, op.data, op.fail), <<>>)
         ELSE LET m == M0(s, op.fail) IN
              Out(s, IF op.data.k = "none" THEN Raise(m, "TypeError") ELSE IF op.data.k = "nonit" THEN Raise(m, "FlowException")
                     ELSE Circle(cfg, m, s, op.data.chunks, 1), <<>>)
    [] op.t \in {"execute", "inverse"} ->
         LET m == M0(s, op.fail)
             last == IF cfg.circ /\ op.nr = -1 THEN s.out + 1 ELSE IF op.nr = -1 \/ op.t = "inverse" THEN Len(s.f) ELSE op.nr + 1
             r == IF op.data.k # "array" /\ Len(op.data.chunks) = 0 THEN <<Raise(m, "FlowException"), <<>>>>
                  ELSE Map(cfg, m, s.f, op, op.data.chunks, last, <<>>)
         IN Out(s, r[1], r[2])
    [] op.t = "stop" -> LET a == NStop(cfg, M0(s, 0), op.i) IN Out(s, a, <<>>)
    [] op.t \in {"input", "output", "reset", "store", "ignore", "iterations"} -> Circular(cfg, s, op)
    [] OTHER -> Container(cfg, s, op)

----------------------------------------------------------------------------
HooksOf(h, i, kind) == SelectSeq(h, LAMBDA x : x.i = i /\ x.k = kind)
RECURSIVE Through(_, _, _)
Through(rows, f, upto) == IF upto = 0 THEN rows
                          ELSE [k \in DOMAIN rows |-> (7 * Through(rows, f, upto - 1)[k] + f[upto]) % MOD]
\* a successful training gives every row to every learning node of a plain
\* online flow, in order, as the nodes before it put it out
Delivers(cfg, s, op, r) ==
  (op.t = "train" /\ r.out.e = "" /\ ~cfg.circ /\ (\A k \in 1..Len(s.f) : \A j \in 1..Len(s.f) : s.f[k] = s.f[j] => k = j)
     /\ cfg.nodes[s.f[Len(s.f)]].k # "tp") =>
    \A p \in 1..Len(s.f) :
      LET i == s.f[p]
          RECURSIVE Cat(_)
          Cat(h) == IF h = <<>> THEN <<>> ELSE h[1].x \o Cat(Tail(h))
          RECURSIVE All(_)
          All(cs) == IF cs = <<>> THEN <<>> ELSE Through(cs[1].rows, s.f, p - 1) \o All(Tail(cs))
      IN IF s.ns[i].training
         THEN \A ph \in 0..(cfg.nodes[i].n - 1) :
                Cat(SelectSeq(HooksOf(r.out.h, i, "train"), LAMBDA x : x.p = ph)) = All(op.data.chunks)
         ELSE HooksOf(r.out.h, i, "train") = <<>>

StepInv(cfg, s, op, r) ==
  /\ r.s.bad \/ Compatible(cfg, r.s, r.s.f)
  /\ ~r.s.bad /\ cfg.circ => r.s.out \in 0..(Len(r.s.f) - 1)
  /\ op.t \notin {"train", "execute", "inverse", "stop"} /\ r.out.e # "" => r.s = s
  /\ Delivers(cfg, s, op, r)
  \* only an explicit stop, or being the plain last node, ends a node's training
  /\ \A i \in 1..Len(cfg.nodes) : (s.ns[i].training /\ ~r.s.ns[i].training) => (op.t = "stop" \/ cfg.nodes[i].k = "tp")
  /\ op.t \in {"execute", "inverse"} => r.s.f = s.f /\ r.s.stored = s.stored
=============================================================================
