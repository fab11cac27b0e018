------------------------------ MODULE NodeLife ------------------------------
(* The life cycle of a single mdp.Node: training phases, execution,          *)
(* inversion, and the set-once attributes input_dim, output_dim and dtype.   *)
(* One operator per public call; `hooks` of a call are the user-supplied     *)
(* methods (_train, _stop_training, _execute, _inverse of each phase) it     *)
(* invokes, in order, each with the dtype of the data it receives.           *)
(* 0 stands for an unset dimension and "" for an unset dtype.                *)
EXTENDS Integers, Sequences, FiniteSets, TLC

\* cfg: [trainable, inv : BOOLEAN, n : number of phases, pd : preserves dims,
\*       supp : supported dtypes (sequence)]
Supp(cfg) == {cfg.supp[i] : i \in 1..Len(cfg.supp)}

NotMade == [made |-> FALSE, idim |-> 0, odim |-> 0, dt |-> "", phase |-> -1,
            started |-> FALSE, training |-> FALSE]

\* A result: new state, exception class ("" = none), hooks invoked
Res(s, e, h) == [s |-> s, e |-> e, h |-> h]

SetIn(cfg, s, n) ==
  IF n = 0 THEN Res(s, "", <<>>)
  ELSE IF s.idim # 0 /\ s.idim # n THEN Res(s, "InconsistentDimException", <<>>)
  ELSE IF cfg.pd /\ s.odim # 0 /\ s.odim # n THEN Res(s, "InconsistentDimException", <<>>)
  ELSE Res([s EXCEPT !.idim = n, !.odim = IF cfg.pd THEN n ELSE @], "", <<>>)

SetOut(cfg, s, n) ==
  IF n = 0 THEN Res(s, "", <<>>)
  ELSE IF s.odim # 0 /\ s.odim # n THEN Res(s, "InconsistentDimException", <<>>)
  ELSE IF cfg.pd /\ s.idim # 0 /\ s.idim # n THEN Res(s, "InconsistentDimException", <<>>)
  ELSE Res([s EXCEPT !.odim = n, !.idim = IF cfg.pd THEN n ELSE @], "", <<>>)

SetDtype(cfg, s, t) ==
  IF t = "" THEN Res(s, "", <<>>)
  ELSE IF s.dt # "" /\ s.dt # t THEN Res(s, "NodeException", <<>>)
  ELSE IF t \notin Supp(cfg) THEN Res(s, "NodeException", <<>>)
  ELSE Res([s EXCEPT !.dt = t], "", <<>>)

New(cfg, i, o, t) ==
  LET a == SetIn(cfg, NotMade, i)
      b == SetOut(cfg, a.s, o)
      c == SetDtype(cfg, b.s, t)
  IN IF a.e # "" THEN Res(NotMade, a.e, <<>>)
     ELSE IF b.e # "" THEN Res(NotMade, b.e, <<>>)
     ELSE IF c.e # "" THEN Res(NotMade, c.e, <<>>)
     ELSE Res([c.s EXCEPT !.made = TRUE, !.phase = IF cfg.trainable THEN 0 ELSE -1,
                          !.training = cfg.trainable], "", <<>>)

\* what every call taking data does first; a rejected array may already have
\* fixed the still unset attributes
CheckInput(cfg, s, x) ==
  IF x.rank # 2 THEN Res(s, "NodeException", <<>>)
  ELSE LET a == IF s.idim = 0 THEN SetIn(cfg, s, x.cols) ELSE Res(s, "", <<>>)
           b == IF a.s.dt = "" THEN SetDtype(cfg, a.s, x.dt) ELSE Res(a.s, "", <<>>)
       IN IF a.e # "" THEN a
          ELSE IF b.e # "" THEN b
          ELSE IF x.cols # b.s.idim THEN Res(b.s, "NodeException", <<>>)
          ELSE IF x.rows = 0 THEN Res(b.s, "NodeException", <<>>)
          ELSE b

HookDt(s) == IF s.dt = "" THEN "f8" ELSE s.dt

\* `fail` = k makes the k-th hook invoked by this call raise ValueError
Train(cfg, s, x, fail, bad, k) ==
  IF ~cfg.trainable THEN Res(s, "IsNotTrainableException", <<>>)
  ELSE IF ~s.training THEN Res(s, "TrainingFinishedException", <<>>)
  ELSE LET a == CheckInput(cfg, s, x)
       IN IF a.e # "" THEN a
          ELSE IF bad THEN Res(a.s, "TrainingException", <<>>)
          ELSE Res([a.s EXCEPT !.started = TRUE],
                   IF fail = k + 1 THEN "ValueError" ELSE "",
                   <<<<"train", s.phase, HookDt(a.s)>>>>)

Stop(cfg, s, fail, k) ==
  IF s.training /\ ~s.started THEN Res(s, "TrainingException", <<>>)
  ELSE IF ~s.training THEN Res(s, "TrainingFinishedException", <<>>)
  ELSE LET h == <<<<"stop", s.phase, "-">>>> IN
       IF fail = k + 1 THEN Res(s, "ValueError", h)
       ELSE Res([s EXCEPT !.phase = @ + 1, !.started = FALSE,
                          !.training = (s.phase + 1 < cfg.n)], "", h)

\* executing (inverting) a node that is still training closes the phase
CloseIfTraining(cfg, s, fail, k) ==
  IF ~s.training THEN Res(s, "", <<>>)
  ELSE LET a == Stop(cfg, s, fail, k)
       IN IF a.e # "" THEN a
          ELSE IF a.s.training THEN Res(a.s, "TrainingException", a.h)
          ELSE a

\* executing an untrained node trains every phase with the given data
RECURSIVE AutoTrain(_, _, _, _, _)
AutoTrain(cfg, s, x, fail, k) ==
  LET a == Train(cfg, s, x, fail, FALSE, k)
  IN IF a.e # "" THEN a
     ELSE IF a.s.phase + 1 < cfg.n
          THEN LET b == Stop(cfg, a.s, fail, k + 1)
               IN IF b.e # "" THEN Res(b.s, b.e, a.h \o b.h)
                  ELSE LET c == AutoTrain(cfg, b.s, x, fail, k + 2)
                       IN Res(c.s, c.e, a.h \o b.h \o c.h)
          ELSE a

Execute(cfg, s, x, fail) ==
  LET a == IF cfg.trainable /\ s.phase = 0 /\ ~s.started
           THEN AutoTrain(cfg, s, x, fail, 0) ELSE Res(s, "", <<>>)
      b == CloseIfTraining(cfg, a.s, fail, Len(a.h))
      h2 == a.h \o b.h
      c == CheckInput(cfg, b.s, x)
      s3 == [c.s EXCEPT !.odim = IF @ = 0 THEN c.s.idim ELSE @]
  IN IF a.e # "" THEN a
     ELSE IF b.e # "" THEN Res(b.s, b.e, h2)
     ELSE IF c.e # "" THEN Res(c.s, c.e, h2)
     ELSE Res(s3, IF fail = Len(h2) + 1 THEN "ValueError" ELSE "",
              Append(h2, <<"execute", -1, HookDt(s3)>>))

Inverse(cfg, s, y, fail) ==
  IF ~cfg.inv THEN Res(s, "IsNotInvertibleException", <<>>)
  ELSE LET a == CloseIfTraining(cfg, s, fail, 0)
           b == [a.s EXCEPT !.odim = IF @ = 0 THEN a.s.idim ELSE @]
       IN IF a.e # "" THEN a
          ELSE IF b.odim = 0 THEN Res(b, "NodeException", a.h)
          ELSE IF y.rank # 2 THEN Res(b, "NodeException", a.h)
          ELSE IF y.cols # b.odim THEN Res(b, "NodeException", a.h)
          ELSE Res(b, IF fail = Len(a.h) + 1 THEN "ValueError" ELSE "",
                   Append(a.h, <<"inverse", -1, HookDt(b)>>))

Start(cfg) == NotMade

StepR(cfg, s, op) ==
  CASE op.t = "new"     -> New(cfg, op.i, op.o, op.dt)
    [] op.t = "train"   -> Train(cfg, s, op.x, op.fail, op.bad, 0)
    [] op.t = "stop"    -> Stop(cfg, s, op.fail, 0)
    [] op.t = "execute" -> Execute(cfg, s, op.x, op.fail)
    [] op.t = "inverse" -> Inverse(cfg, s, op.x, op.fail)
    [] op.t = "seti"    -> SetIn(cfg, s, op.n)
    [] op.t = "seto"    -> SetOut(cfg, s, op.n)
    [] op.t = "setdt"   -> SetDtype(cfg, s, op.dt)

Step(cfg, s, op) == LET r == StepR(cfg, s, op) IN [s |-> r.s, out |-> [e |-> r.e, h |-> r.h]]

----------------------------------------------------------------------------
\* Properties of states and of steps (checked on the exploration)
Remaining(cfg, s) == IF cfg.trainable THEN cfg.n - s.phase ELSE 0

StateInv(cfg, s) ==
  s.made =>
    /\ cfg.trainable => s.phase \in 0..cfg.n
    /\ ~cfg.trainable => s.phase = -1 /\ ~s.training /\ ~s.started
    /\ s.training <=> (cfg.trainable /\ s.phase < cfg.n)
    /\ s.started => s.training
    /\ cfg.pd => s.idim = s.odim
    /\ s.dt # "" => s.dt \in Supp(cfg)

StepInv(cfg, s, op, out, t) ==
  s.made =>
    /\ s.idim # 0 => t.idim = s.idim                    \* set once
    /\ s.odim # 0 => t.odim = s.odim
    /\ s.dt # "" => t.dt = s.dt
    /\ t.phase >= s.phase
    /\ Cardinality({i \in 1..Len(out.h) : out.h[i][1] = "stop"})
         >= t.phase - s.phase                           \* every phase closed by its own hook
    /\ \A i \in 1..Len(out.h) :
         /\ out.h[i][1] \in {"train", "stop"} =>
              (out.h[i][2] >= s.phase /\ out.h[i][2] <= t.phase /\ s.training)
         /\ out.h[i][1] \in {"execute", "inverse"} =>   \* only a fully trained node computes
              (~t.training /\ i = Len(out.h))
    /\ out.e = "" /\ op.t \in {"execute", "inverse"} => ~t.training
    /\ ~s.training /\ op.t \in {"train", "stop"} => (out.e # "" /\ t = s)
=============================================================================
