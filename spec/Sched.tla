------------------------------- MODULE Sched --------------------------------
(* The sequential Scheduler.  A callable c of kind cfg.kind[c] answers data d *)
(* with <<c, d, n>>, n being the number of calls its object has seen: "fn" a  *)
(* function, "self" a task callable that is its own fork (its object is       *)
(* called again and again), "fork" one whose forks are fresh copies.  Data    *)
(* below 0 make it raise; "badfork" raises when it is forked.  Callable 0 is  *)
(* None.  cfg.box: the result container.                                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Start(cfg) == [cnt |-> 0, last |-> 0, res |-> <<>>, calls |-> [c \in 1..Len(cfg.kind) |-> 0],
               ends |-> 0]

Ret(s, e, v) == [s |-> s, out |-> [e |-> e, v |-> v]]

\* one task run by callable c
Run(cfg, s, c, d) ==
  LET n == s.cnt + 1
      a == [s EXCEPT !.cnt = n, !.last = c]
      k == cfg.kind[c]
  IN IF k = "badfork" THEN Ret(a, "KeyError", <<>>)
     ELSE LET b == IF k = "fork" THEN a ELSE [a EXCEPT !.calls[c] = @ + 1]
              v == IF k = "fork" THEN 1 ELSE b.calls[c]
          IN IF d < 0 THEN Ret(b, "ValueError", <<>>)
             ELSE Ret([b EXCEPT !.res = Append(@, <<<<c, d, v>>, n>>)], "", <<>>)

\* results are handed out ordered by task number, or in order of arrival
RECURSIVE Sort(_)
Sort(r) == IF r = <<>> THEN <<>>
           ELSE LET i == CHOOSE i \in 1..Len(r) : \A j \in 1..Len(r) :
                           r[i][2] < r[j][2] \/ (r[i][2] = r[j][2] /\ i <= j)
                IN <<r[i]>> \o Sort(SubSeq(r, 1, i - 1) \o SubSeq(r, i + 1, Len(r)))
Vals(r) == [i \in 1..Len(r) |-> r[i][1]]

Step(cfg, s, op) ==
  CASE op.t = "add" -> IF op.c = 0 /\ s.last = 0 THEN Ret(s, "Exception", <<>>)
                       ELSE Run(cfg, s, IF op.c = 0 THEN s.last ELSE op.c, op.d)
    [] op.t = "set" -> Ret([s EXCEPT !.last = op.c], "", <<>>)
    [] op.t = "get" -> Ret([s EXCEPT !.res = <<>>], "",
                           IF cfg.box = "ordered" THEN Vals(Sort(s.res)) ELSE Vals(s.res))
    [] op.t = "shutdown" -> Ret([s EXCEPT !.ends = @ + 1], "", <<>>)
    \* leaving a with block (op.x: by an exception, which is not swallowed)
    [] op.t = "with" -> Ret([s EXCEPT !.ends = @ + 1], IF op.x THEN "KeyError" ELSE "", <<>>)
    \* a result stored directly in the container
    [] op.t = "put" -> Ret([s EXCEPT !.res = Append(@, <<<<0, op.d, 0>>, op.n>>)], "", <<>>)

StepInv(cfg, s, op, r) ==
  /\ r.s.cnt >= s.cnt
  \* an accepted task adds exactly one result, a refused one none
  /\ op.t = "add" => Len(r.s.res) = Len(s.res) + (IF r.out.e = "" THEN 1 ELSE 0)
  /\ op.t = "get" => Len(r.out.v) = Len(s.res) /\ r.s.res = <<>>
  /\ op.t = "get" /\ cfg.box = "ordered" =>
       LET q == Sort(s.res) IN \A i \in 1..(Len(q) - 1) : q[i][2] <= q[i + 1][2]
=============================================================================
