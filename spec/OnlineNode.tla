----------------------------- MODULE OnlineNode ----------------------------
(* The life cycle of an mdp.OnlineNode, and the two exact online nodes        *)
(* OnlineCenteringNode and OnlineTimeDiffNode.  An online node learns sample   *)
(* by sample (or block by block), with all its training phases active at       *)
(* once; executing or inverting it never ends its training.                    *)
(* Data are integer matrices [x : rows, cols, rank, dt].                       *)
EXTENDS Integers, Sequences, FiniteSets, TLC

\* cfg: [kind : "probe" | "mean" | "half" | "diff", trainable, inv : BOOLEAN,
\*       n : number of phases, pd, supp : supported dtypes, types : training
\*       types, legacy : training phases without an execution step]
Supp(cfg) == {cfg.supp[i] : i \in 1..Len(cfg.supp)}
Types(cfg) == {cfg.types[i] : i \in 1..Len(cfg.types)}

NotMade == [made |-> FALSE, idim |-> 0, odim |-> 0, dt |-> "", phase |-> -1, started |-> FALSE,
            training |-> FALSE, iter |-> 0, tt |-> "", rng |-> "", sum |-> <<>>, prev |-> <<>>, cur |-> <<>>]

Res(s, e, h) == [s |-> s, e |-> e, h |-> h, y |-> <<>>]

SetIn(cfg, s, n) ==
  IF n = 0 THEN Res(s, "", <<>>)
  ELSE IF s.idim # 0 /\ s.idim # n THEN Res(s, "InconsistentDimException", <<>>)
  ELSE IF cfg.pd /\ s.odim # 0 /\ s.odim # n THEN Res(s, "InconsistentDimException", <<>>)
  ELSE Res([s EXCEPT !.idim = n, !.odim = IF cfg.pd THEN n ELSE @], "", <<>>)

SetOut(cfg, s, n) ==
  IF n = 0 THEN Res(s, "", <<>>)
  ELSE IF s.odim # 0 /\ s.odim # n THEN Res(s, "InconsistentDimException", <<>>)
  ELSE IF cfg.pd /\ s.idim # 0 /\ s.idim # n THEN Res(s, "InconsistentDimException", <<>>)
  ELSE Res([s EXCEPT !.odim = n, !.idim = IF cfg.pd THEN n ELSE @], "", <<>>)

SetDtype(cfg, s, t) ==
  IF t = "" THEN Res(s, "", <<>>)
  ELSE IF s.dt # "" /\ s.dt # t THEN Res(s, "NodeException", <<>>)
  ELSE IF t \notin Supp(cfg) THEN Res(s, "NodeException", <<>>)
  ELSE Res([s EXCEPT !.dt = t], "", <<>>)

SetRng(s, r) ==
  IF r = "" THEN Res(s, "", <<>>)
  ELSE IF r = "bad" THEN Res(s, "OnlineNodeException", <<>>)
  ELSE Res([s EXCEPT !.rng = r], "", <<>>)

SetType(cfg, s, t) ==
  IF t \in Types(cfg) THEN Res([s EXCEPT !.tt = t], "", <<>>) ELSE Res(s, "OnlineNodeException", <<>>)

New(cfg, i, o, t, r) ==
  LET a == SetIn(cfg, NotMade, i)
      b == SetOut(cfg, a.s, o)
      c == SetDtype(cfg, b.s, t)
      d == SetRng(c.s, r)
  IN IF a.e # "" THEN Res(NotMade, a.e, <<>>)
     ELSE IF b.e # "" THEN Res(NotMade, b.e, <<>>)
     ELSE IF c.e # "" THEN Res(NotMade, c.e, <<>>)
     ELSE IF d.e # "" THEN Res(NotMade, d.e, <<>>)
     ELSE Res([d.s EXCEPT !.made = TRUE, !.phase = IF cfg.trainable THEN 0 ELSE -1,
                          !.training = cfg.trainable], "", <<>>)

\* what every call taking data does first; a generator and a training type are
\* chosen once data was accepted
CheckInput(cfg, s, x) ==
  IF x.rank # 2 THEN Res(s, "NodeException", <<>>)
  ELSE LET a == IF s.idim = 0 THEN SetIn(cfg, s, x.cols) ELSE Res(s, "", <<>>)
           b == IF a.s.dt = "" THEN SetDtype(cfg, a.s, x.dt) ELSE Res(a.s, "", <<>>)
       IN IF a.e # "" THEN a
          ELSE IF b.e # "" THEN b
          ELSE IF x.cols # b.s.idim THEN Res(b.s, "NodeException", <<>>)
          ELSE IF Len(x.x) = 0 THEN Res(b.s, "NodeException", <<>>)
          ELSE Res([b.s EXCEPT !.rng = IF @ = "" THEN "own" ELSE @,
                               !.tt = IF @ = "" THEN cfg.types[1] ELSE @], "", <<>>)

HookDt(s) == IF s.dt = "" THEN "f8" ELSE s.dt

\* the data as the phase after p sees it
After(x, p) == [r \in 1..Len(x) |-> [c \in 1..Len(x[r]) |-> x[r][c] + 1000 * (p + 1)]]

\* the hooks of one presentation of the rows x to all phases; `room` hooks may
\* run before the injected failure (room < 0: no failure).  Result: hooks, and
\* whether the presentation was completed
RECURSIVE Phases(_, _, _, _, _, _)
Phases(cfg, s, x, p, arg, room) ==
  IF p = cfg.n THEN [h |-> <<>>, ok |-> TRUE]
  ELSE LET one == <<[k |-> "train", p |-> p, dt |-> HookDt(s), x |-> x, a |-> arg]>>
           ex == IF cfg.legacy THEN <<>> ELSE <<[k |-> "exec", p |-> p, dt |-> HookDt(s), x |-> x, a |-> arg]>>
           used == 1 + Len(ex)
       IN IF room = 1 THEN [h |-> one, ok |-> FALSE]
          ELSE IF room = 2 /\ ~cfg.legacy THEN [h |-> one \o ex, ok |-> FALSE]
          ELSE LET q == Phases(cfg, s, IF cfg.legacy THEN x ELSE After(x, p), p + 1, arg, room - used)
               IN [h |-> one \o ex \o q.h, ok |-> q.ok]

\* what the exact nodes learn from one presentation
Learn(cfg, s, x) ==
  CASE cfg.kind = "mean" ->  \* sum of all samples
         [s EXCEPT !.sum = IF s.iter = 0 THEN x[1] ELSE [c \in 1..Len(x[1]) |-> @[c] + x[1][c]]]
    [] cfg.kind = "half" ->  \* moving average, weight 1/2
         [s EXCEPT !.sum = IF s.iter = 0 THEN x[1] ELSE [c \in 1..Len(x[1]) |-> (@[c] + x[1][c]) \div 2]]
    [] cfg.kind = "diff" ->  \* the last two samples ever seen
         LET all == <<IF s.cur = <<>> THEN [c \in 1..Len(x[1]) |-> 0] ELSE s.cur>> \o x
         IN [s EXCEPT !.prev = all[Len(all) - 1], !.cur = all[Len(all)]]
    [] OTHER -> s

RECURSIVE Present(_, _, _, _, _)
Present(cfg, s, blocks, arg, room) ==
  IF blocks = <<>> THEN Res(s, "", <<>>)
  ELSE LET q == Phases(cfg, s, blocks[1], 0, arg, room)
           s2 == Learn(cfg, s, blocks[1])
       IN IF ~q.ok THEN Res(s, "ValueError", q.h)
          ELSE LET r == Present(cfg, [s2 EXCEPT !.iter = @ + Len(blocks[1])], Tail(blocks), arg, room - Len(q.h))
               IN Res(r.s, r.e, q.h \o r.h)

Train(cfg, s, x, bad, arg, fail) ==
  IF ~cfg.trainable THEN Res(s, "IsNotTrainableException", <<>>)
  ELSE IF ~s.training THEN Res(s, "TrainingFinishedException", <<>>)
  ELSE LET a == CheckInput(cfg, s, x)
           s2 == [a.s EXCEPT !.started = TRUE]
       IN IF a.e # "" THEN a
          ELSE IF bad = "args" THEN Res(a.s, "TrainingException", <<>>)
          ELSE IF bad = "params" THEN Res(a.s, "ValueError", <<>>)
          ELSE Present(cfg, s2, IF s2.tt = "batch" THEN <<x.x>> ELSE [r \in 1..Len(x.x) |-> <<x.x[r]>>], arg,
                       IF fail = 0 THEN -1 ELSE fail)

Stop(cfg, s, fail) ==
  IF s.training /\ ~s.started THEN Res(s, "TrainingException", <<>>)
  ELSE IF ~s.training THEN Res(s, "TrainingFinishedException", <<>>)
  ELSE LET k == IF fail \in 1..cfg.n THEN fail ELSE cfg.n
           h == [p \in 1..k |-> [k |-> "stop", p |-> p - 1, dt |-> "-", x |-> <<>>, a |-> 0]]
       IN IF fail \in 1..cfg.n THEN Res(s, "ValueError", h)
          ELSE Res([s EXCEPT !.phase = cfg.n, !.started = FALSE, !.training = FALSE], "", h)

Value(cfg, s, kind, x) ==
  LET c(op(_, _)) == [r \in 1..Len(x) |-> [j \in 1..Len(x[r]) |-> op(r, j)]]
      m(j) == IF cfg.kind = "mean" THEN s.sum[j] \div s.iter ELSE s.sum[j]
      before(r) == IF r = 1 THEN s.prev ELSE x[r - 1]
  IN CASE cfg.kind = "probe" -> c(LAMBDA r, j : x[r][j] * (IF kind = "execute" THEN 2 ELSE 3))
       [] cfg.kind = "diff" -> c(LAMBDA r, j : x[r][j] - before(r)[j])
       \* before the second sample there is nothing to centre on
       [] OTHER -> IF s.iter <= 1 THEN x
                   ELSE c(LAMBDA r, j : IF kind = "execute" THEN x[r][j] - m(j) ELSE x[r][j] + m(j))

Last(cfg, s, kind, x, h, fail) ==
  LET me == [k |-> kind, p |-> -1, dt |-> HookDt(s), x |-> x, a |-> 0]
  IN IF fail = Len(h) + 1 THEN Res(s, "ValueError", Append(h, me))
     ELSE [s |-> s, e |-> "", h |-> Append(h, me), y |-> Value(cfg, s, kind, x)]

\* a node that has not started to learn learns from the data first
Execute(cfg, s, x, bad, fail) ==
  LET a == IF cfg.trainable /\ s.phase = 0 /\ ~s.started
           THEN Train(cfg, s, x, bad, 0, fail) ELSE Res(s, "", <<>>)
      c == CheckInput(cfg, a.s, x)
      s3 == [c.s EXCEPT !.odim = IF @ = 0 THEN c.s.idim ELSE @]
  IN IF a.e # "" THEN a
     ELSE IF c.e # "" THEN Res(c.s, c.e, a.h)
     ELSE IF bad = "params" THEN Res(c.s, "ValueError", a.h)
     ELSE Last(cfg, s3, "execute", x.x, a.h, fail)

Inverse(cfg, s, y, fail) ==
  IF ~cfg.inv THEN Res(s, "IsNotInvertibleException", <<>>)
  ELSE LET b == [s EXCEPT !.odim = IF @ = 0 THEN s.idim ELSE @]
       IN IF b.odim = 0 THEN Res(b, "NodeException", <<>>)
          ELSE IF y.rank # 2 THEN Res(b, "NodeException", <<>>)
          ELSE IF y.cols # b.odim THEN Res(b, "NodeException", <<>>)
          ELSE Last(cfg, b, "inverse", y.x, <<>>, fail)

Start(cfg) == NotMade

StepR(cfg, s, op) ==
  CASE op.t = "new"     -> New(cfg, op.i, op.o, op.dt, op.rng)
    [] op.t = "train"   -> Train(cfg, s, op.x, op.bad, op.a, op.fail)
    [] op.t = "stop"    -> Stop(cfg, s, op.fail)
    [] op.t = "execute" -> Execute(cfg, s, op.x, op.bad, op.fail)
    [] op.t = "inverse" -> Inverse(cfg, s, op.x, op.fail)
    [] op.t = "seti"    -> SetIn(cfg, s, op.n)
    [] op.t = "seto"    -> SetOut(cfg, s, op.n)
    [] op.t = "setdt"   -> SetDtype(cfg, s, op.dt)
    [] op.t = "settt"   -> SetType(cfg, s, op.tt)
    [] op.t = "setrng"  -> SetRng(s, op.rng)
    \* concatenation: the kind of flow and its nodes
    [] op.t = "add"     -> CASE op.o = "online" -> [Res(s, "", <<>>) EXCEPT !.y = <<"OnlineFlow", "self", "o1">>]
                             [] op.o = "node"   -> [Res(s, "", <<>>) EXCEPT !.y = <<"Flow", "self", "n1">>]
                             [] op.o = "flow"   -> [Res(s, "", <<>>) EXCEPT !.y = <<"Flow", "self", "n1", "n2">>]
                             [] op.o = "oflow"  -> [Res(s, "", <<>>) EXCEPT !.y = <<"OnlineFlow", "self", "o1", "n2">>]
                             [] op.o = "bad"    -> Res(s, "TypeError", <<>>)

Step(cfg, s, op) ==
  LET r == StepR(cfg, s, op)
  IN [s |-> r.s, out |-> [e |-> r.e, h |-> IF cfg.kind = "probe" THEN r.h ELSE <<>>, y |-> r.y]]

Remaining(cfg, s) == IF cfg.trainable THEN cfg.n - s.phase ELSE 0

StepInv(cfg, s, op, r) ==
  /\ r.s.made =>
       /\ cfg.trainable => r.s.phase \in {0, cfg.n}
       /\ r.s.training <=> (cfg.trainable /\ r.s.phase = 0)
       /\ r.s.started => r.s.training
       /\ cfg.pd => r.s.idim = r.s.odim
       /\ r.s.dt # "" => r.s.dt \in Supp(cfg)
       /\ r.s.tt # "" => r.s.tt \in Types(cfg)
  \* set once
  /\ s.made => /\ r.s.made
               /\ s.idim # 0 => r.s.idim = s.idim
               /\ s.odim # 0 => r.s.odim = s.odim
               /\ s.dt # "" => r.s.dt = s.dt
               /\ s.rng # "" => r.s.rng # ""
  \* executing and inverting never end the training
  /\ op.t \in {"execute", "inverse"} => r.s.training = s.training
  /\ op.t = "inverse" \/ (op.t = "execute" /\ s.started) =>
        r.s = [s EXCEPT !.idim = r.s.idim, !.odim = r.s.odim, !.dt = r.s.dt, !.tt = r.s.tt, !.rng = r.s.rng]
  /\ s.training /\ ~r.s.training => op.t = "stop"
  \* nothing is learned after the training was stopped
  /\ s.made /\ ~s.training => r.s.iter = s.iter /\ r.s.sum = s.sum /\ r.s.cur = s.cur
  \* a completed training presents every sample to every phase
  /\ op.t = "train" /\ r.out.e = "" =>
       /\ r.s.iter = s.iter + Len(op.x.x)
       /\ cfg.kind = "probe" =>
            LET T(p) == SelectSeq(r.out.h, LAMBDA e : e.k = "train" /\ e.p = p)
            IN \A p \in 0..(cfg.n - 1) : Len(T(p)) = IF r.s.tt = "batch" THEN 1 ELSE Len(op.x.x)
=============================================================================
