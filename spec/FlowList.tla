------------------------------ MODULE FlowList ------------------------------
(* mdp.Flow as a container: Python list semantics restricted to sequences of *)
(* nodes with matching dimensions; an operation that raises changes nothing. *)
(* Nodes are numbered 1..K; cfg.dims[k] = <<input_dim, output_dim>> with 0   *)
(* for unset.  0 is an object that is not a node.  N (= 99) is None.         *)
EXTENDS Integers, Sequences, FiniteSets, TLC

N == 99

Consistent(cfg, q) ==
  \A i \in 1..(Len(q) - 1) :
     LET o == cfg.dims[q[i]][2]
         n == cfg.dims[q[i + 1]][1]
     IN o = 0 \/ n = 0 \/ o = n

AreNodes(cfg, q) == \A i \in 1..Len(q) : q[i] \in 1..Len(cfg.dims)

\* f : the flow under test, g : the flow derived from it last (<<-1>> none yet)
Start(cfg) == [f |-> cfg.init, g |-> <<-1>>]

Ret(s, e, v) == [s |-> s, out |-> [e |-> e, v |-> v]]

\* ---------------------------------------------------------- Python indexing
Idx(len, i) == IF i < 0 THEN i + len ELSE i          \* 0-based

\* PySlice_AdjustIndices: <<start, step, number of elements>>
Clip(x, lo, hi) == IF x < lo THEN lo ELSE IF x > hi THEN hi ELSE x
SliceOf(len, a, b, c) ==
  LET st == IF c = N THEN 1 ELSE c
      lo == IF st > 0 THEN 0 ELSE -1
      hi == IF st > 0 THEN len ELSE len - 1
      norm(x) == Clip(IF x < 0 THEN x + len ELSE x, lo, hi)
      b0 == IF a = N THEN (IF st > 0 THEN 0 ELSE len - 1) ELSE norm(a)
      e0 == IF b = N THEN (IF st > 0 THEN len ELSE -1) ELSE norm(b)
      cnt == IF st > 0 THEN (IF b0 < e0 THEN (e0 - b0 - 1) \div st + 1 ELSE 0)
             ELSE (IF e0 < b0 THEN (b0 - e0 - 1) \div (-st) + 1 ELSE 0)
  IN <<b0, st, cnt>>

GetSlice(q, sl) == LET t == SliceOf(Len(q), sl[1], sl[2], sl[3])
                   IN [k \in 1..t[3] |-> q[t[1] + (k - 1) * t[2] + 1]]

SliceSet(q, sl) == LET t == SliceOf(Len(q), sl[1], sl[2], sl[3])
                   IN {t[1] + (k - 1) * t[2] + 1 : k \in 1..t[3]}

RECURSIVE DelIdx(_, _, _)
DelIdx(q, S, k) == IF k > Len(q) THEN <<>>
                   ELSE (IF k \in S THEN <<>> ELSE <<q[k]>>) \o DelIdx(q, S, k + 1)

\* assigning to a slice: <<ok, new sequence>>
SetSlice(q, sl, v) ==
  LET t == SliceOf(Len(q), sl[1], sl[2], sl[3]) IN
  IF t[2] = 1
  THEN <<TRUE, SubSeq(q, 1, t[1]) \o v \o SubSeq(q, t[1] + t[3] + 1, Len(q))>>
  ELSE IF Len(v) # t[3] THEN <<FALSE, q>>
  ELSE <<TRUE, [k \in 1..Len(q) |->
                  IF \E j \in 1..t[3] : t[1] + (j - 1) * t[2] + 1 = k
                  THEN v[CHOOSE j \in 1..t[3] : t[1] + (j - 1) * t[2] + 1 = k] ELSE q[k]]>>

\* accept a new node sequence for f, or raise ValueError and keep the old one
Accept(cfg, s, q, v) == IF Consistent(cfg, q) THEN Ret([s EXCEPT !.f = q], "", v)
                        ELSE Ret(s, "ValueError", <<>>)
Derive(cfg, s, q) == IF Consistent(cfg, q) THEN Ret([s EXCEPT !.g = q], "", q)
                     ELSE Ret(s, "ValueError", <<>>)

Step(cfg, s, op) ==
  LET f == s.f
      n == Len(f)
      inr == op.i + n >= 0 /\ op.i < n      \* only for integer keys
  IN
  CASE op.t = "get" -> IF inr THEN Ret(s, "", <<f[Idx(n, op.i) + 1]>>) ELSE Ret(s, "IndexError", <<>>)
    [] op.t = "getsl" -> IF op.sl[3] = 0 THEN Ret(s, "ValueError", <<>>)
                         ELSE Derive(cfg, s, GetSlice(f, op.sl))
    [] op.t = "set" -> IF ~AreNodes(cfg, op.v) THEN Ret(s, "TypeError", <<>>)
                       ELSE IF ~inr THEN Ret(s, "IndexError", <<>>)
                       ELSE Accept(cfg, s, [f EXCEPT ![Idx(n, op.i) + 1] = op.v[1]], <<>>)
    [] op.t = "setsl" -> IF ~AreNodes(cfg, op.v) THEN Ret(s, "TypeError", <<>>)
                         ELSE LET r == SetSlice(f, op.sl, op.v)
                              IN IF r[1] THEN Accept(cfg, s, r[2], <<>>) ELSE Ret(s, "ValueError", <<>>)
    [] op.t = "del" -> IF ~inr THEN Ret(s, "IndexError", <<>>)
                       ELSE Accept(cfg, s, DelIdx(f, {Idx(n, op.i) + 1}, 1), <<>>)
    [] op.t = "delsl" -> Accept(cfg, s, DelIdx(f, SliceSet(f, op.sl), 1), <<>>)
    [] op.t = "append" -> IF ~AreNodes(cfg, op.v) THEN Ret(s, "TypeError", <<>>)
                          ELSE Accept(cfg, s, f \o op.v, <<>>)
    [] op.t = "insert" -> IF ~AreNodes(cfg, op.v) THEN Ret(s, "TypeError", <<>>)
                          ELSE Accept(cfg, s, SetSlice(f, <<op.i, op.i, N>>, op.v)[2], <<>>)
    [] op.t = "pop" -> IF ~inr THEN Ret(s, "IndexError", <<>>)
                       ELSE LET x == f[Idx(n, op.i) + 1]
                                r == Accept(cfg, s, DelIdx(f, {Idx(n, op.i) + 1}, 1), <<x>>) IN r
    \* flow + flow, flow + node, flow + something else
    [] op.t = "add" -> IF ~AreNodes(cfg, op.v) THEN Ret(s, "TypeError", <<>>)
                       ELSE Derive(cfg, s, f \o op.v)
    [] op.t = "addself" -> Derive(cfg, s, f \o f)
    [] op.t = "iadd" -> IF ~AreNodes(cfg, op.v) THEN Ret(s, "TypeError", <<>>)
                        ELSE Accept(cfg, s, f \o op.v, <<>>)
    [] op.t = "extend" -> IF op.form # "flow" THEN Ret(s, "TypeError", <<>>)
                          ELSE Accept(cfg, s, f \o op.v, <<>>)
    [] op.t = "contains" -> Ret(s, "", <<IF \E k \in 1..n : f[k] = op.i THEN 1 ELSE 0>>)
    [] op.t = "new" -> IF Consistent(cfg, op.v) THEN Ret([s EXCEPT !.g = op.v], "", op.v)
                       ELSE Ret(s, "ValueError", <<>>)
    \* changing the derived flow leaves f alone
    [] op.t = "gadd" -> IF s.g = <<-1>> THEN Ret(s, "", <<>>)
                        ELSE IF Consistent(cfg, s.g \o op.v) THEN Ret([s EXCEPT !.g = @ \o op.v], "", <<>>)
                        ELSE Ret(s, "ValueError", <<>>)

StepInv(cfg, s, op, r) ==
  /\ Consistent(cfg, r.s.f) /\ AreNodes(cfg, r.s.f)
  /\ r.out.e # "" => r.s = s
  /\ op.t \in {"get", "getsl", "add", "addself", "contains", "new", "gadd"} => r.s.f = s.f
=============================================================================
