------------------------------- MODULE BiNode ------------------------------
(* bimdp.BiNode: parsing of messages, choice of method and target, results. *)
(*                                                                           *)
(* cfg.m gives for each method which of the arguments a, b, msg it takes and *)
(* what it returns.  A message maps keys to values, 0 / "" meaning the key   *)
(* is missing: a, b, c, x; Na, Nb, Nc ("N->a", ...: addressed to this node   *)
(* if it has its id), Ma (to another node); target and method, plain and     *)
(* addressed.  cfg.co > 0: execute is a coroutine with so many yields.       *)
EXTENDS Integers, Sequences, FiniteSets, TLC

NoMsg == [k |-> FALSE, a |-> 0, b |-> 0, c |-> 0, x |-> 0, Na |-> 0, Nb |-> 0, Nc |-> 0, Ma |-> 0,
          tgt |-> "", Ntgt |-> "", meth |-> "", Nmeth |-> ""]
Empty == [NoMsg EXCEPT !.k = TRUE]
Keys == {"a", "b", "c", "x", "Na", "Nb", "Nc", "Ma", "tgt", "Ntgt", "meth", "Nmeth"}
IsEmpty(m) == m = NoMsg \/ m = Empty
Upd(m, n) == [k \in DOMAIN m |-> IF k \in Keys /\ n[k] # NoMsg[k] THEN n[k] ELSE m[k]]

Start(cfg) == [phase |-> 0, training |-> cfg.n > 0, started |-> FALSE, co |-> 0]

Res(e, f, y, m, t) == [e |-> e, f |-> f, y |-> y, m |-> m, t |-> t]
Err == Res(TRUE, "none", FALSE, NoMsg, "")
None == Res(FALSE, "none", FALSE, NoMsg, "")

\* the raw result of a method that got the message gm
Raw(r, gm) ==
  LET rm == CASE r.m = "none" -> NoMsg [] r.m = "empty" -> Empty
              [] r.m = "c" -> [Empty EXCEPT !.c = 30, !.a = 10]
              [] OTHER -> [gm EXCEPT !.k = TRUE, !.b = 60, !.c = 0]
  IN CASE r.f = "none" -> None
       [] r.f = "x" -> Res(FALSE, "x", TRUE, NoMsg, "")
       [] r.f = "xm" -> Res(FALSE, "xm", TRUE, rm, "")
       [] r.f = "nm" -> Res(FALSE, "xm", FALSE, rm, "")
       [] r.f = "xmt" -> Res(FALSE, "xmt", TRUE, rm, r.t)
       [] r.f = "nmt" -> Res(FALSE, "xmt", FALSE, rm, r.t)

\* what is returned, given the remaining message and the target asked for
Combine(raw, m, t) ==
  IF raw.e THEN raw
  ELSE IF raw.f \in {"xm", "xmt"}
  THEN LET r == IF IsEmpty(m) THEN raw
                ELSE [raw EXCEPT !.m = IF IsEmpty(raw.m) THEN m ELSE Upd(m, raw.m)]
       IN IF t # "" /\ r.f = "xm" THEN [r EXCEPT !.f = "xmt", !.t = t] ELSE r
  ELSE IF IsEmpty(m) /\ t = "" THEN raw
  ELSE IF t = "" THEN [raw EXCEPT !.f = "xm", !.m = m]
  ELSE [raw EXCEPT !.f = "xmt", !.m = m, !.t = t]

\* call a method: x is "x", "" (None); gm the message argument
CallM(cfg, s, name, x, a, b, gm) ==
  LET h == cfg.m[name]
      Ok(r, s2) == [s |-> s2, raw |-> r,
                    call |-> <<[n |-> name, x |-> x, a |-> IF h.a # "no" THEN a ELSE 0,
                                b |-> IF h.b # "no" THEN b ELSE 0, m |-> IF h.msg THEN gm ELSE NoMsg]>>]
  IN IF name = "execute" /\ cfg.co > 0
     THEN LET j == s.co + 1     \* the instance does its j-th step
              y == [Empty EXCEPT !.c = 30 + j]
              end == CASE cfg.cor = "none" -> None
                       [] cfg.cor = "x" -> Res(FALSE, "x", TRUE, NoMsg, "")
                       [] OTHER -> Res(FALSE, "xm", TRUE, [Empty EXCEPT !.c = 99], "")
          IN [s |-> [s EXCEPT !.co = IF j > cfg.co THEN 0 ELSE j],
              raw |-> IF j > cfg.co THEN end
                      ELSE IF cfg.cot = "" THEN Res(FALSE, "xm", TRUE, y, "")
                      ELSE Res(FALSE, "xmt", TRUE, y, cfg.cot),
              call |-> <<[n |-> name, x |-> x, a |-> a, b |-> IF j = 1 THEN 0 ELSE b, m |-> NoMsg]>>]
     ELSE IF (h.a = "req" /\ a = 0) \/ (h.b = "req" /\ b = 0)
     THEN [s |-> s, raw |-> Err, call |-> <<>>]
     ELSE Ok(Raw(h.r, gm), s)

Addressed(cfg, m, key, nkey) == IF cfg.id /\ m[nkey] # NoMsg[nkey] THEN m[nkey] ELSE m[key]
Without(cfg, m, nkeys) == IF cfg.id THEN [k \in DOMAIN m |-> IF k \in nkeys THEN NoMsg[k] ELSE m[k]] ELSE m
NKeys == {"Na", "Nb", "Nc", "Ntgt", "Nmeth"}

TrainM(s) == IF s.phase = 0 THEN "train" ELSE "train2"
StopM(s) == IF s.phase = 0 THEN "stop" ELSE "stop2"
Advance(cfg, s) == [s EXCEPT !.phase = @ + 1, !.started = FALSE, !.training = (s.phase + 1 < cfg.n)]
\* does a method of this name exist (its message name m) and which is it
MethodName(s, m, default) == CASE m = "" -> default [] OTHER -> m
Exists(m) == m \in {"", "execute", "inverse", "train", "other"}

R(s, out, calls) == [s |-> s, out |-> [e |-> out.e, f |-> out.f, y |-> out.y, m |-> out.m,
                                       t |-> out.t, calls |-> calls]]
\* stop_result of the phase that is closed
StopRes(cfg, phase) == IF cfg.sr = "no" THEN [m |-> NoMsg, t |-> ""]
                       ELSE IF cfg.n < 2 THEN [m |-> [Empty EXCEPT !.a = 40], t |-> "1"]
                       ELSE IF phase = 0 THEN [m |-> [Empty EXCEPT !.a = 41], t |-> "id"]
                       ELSE [m |-> Empty, t |-> ""]

Stop(cfg, s, msg) ==
  IF ~s.training \/ ~s.started THEN R(s, Err, <<>>)
  ELSE LET m1 == Without(cfg, msg, NKeys)
           t0 == Addressed(cfg, msg, "tgt", "Ntgt")
           mn == Addressed(cfg, msg, "meth", "Nmeth")
           name == MethodName(s, mn, StopM(s))
           t1 == IF mn = "inverse" /\ t0 = "" THEN "-1" ELSE t0
           h == cfg.m[name]
           hasx == name \in {"execute", "inverse", "train", "other"}
           co == name = "execute" /\ cfg.co > 0
           x == IF hasx /\ msg.x # 0 THEN "x" ELSE ""
           Fin(c, m, t) == IF c.raw.e THEN R(c.s, Err, c.call)
                           ELSE LET sr == StopRes(cfg, s.phase)
                                    m2 == IF cfg.sr = "no" THEN m ELSE Upd(sr.m, m)
                                    t2 == IF cfg.sr # "no" /\ t = "" THEN sr.t ELSE t
                                IN R(Advance(cfg, c.s), Combine(c.raw, m2, t2), c.call)
       IN IF IsEmpty(msg) THEN Fin(CallM(cfg, s, StopM(s), "", 0, 0, NoMsg), msg, "")
          ELSE IF ~Exists(mn) THEN R(s, Err, <<>>)
          ELSE IF hasx /\ x = "" THEN R(s, Err, <<>>)      \* the data is missing
          ELSE Fin(CallM(cfg, s, name, x, Addressed(cfg, msg, "a", "Na"), Addressed(cfg, msg, "b", "Nb"),
                         IF h.msg /\ ~co THEN m1 ELSE NoMsg),
                   IF h.msg /\ ~co THEN NoMsg ELSE m1, t1)

TrainPlain(cfg, s, x) ==       \* without a message
  IF cfg.n = 0 \/ ~s.training THEN R(s, Err, <<>>)
  ELSE IF x # "x" THEN R(s, Err, <<>>)
  ELSE LET c == CallM(cfg, [s EXCEPT !.started = TRUE], TrainM(s), "x", 0, 0, NoMsg)
       IN R(c.s, c.raw, c.call)

Train(cfg, s, x, msg) ==
  IF ~msg.k THEN TrainPlain(cfg, s, x)
  ELSE IF cfg.n = 0 \/ ~s.training THEN R(s, Err, <<>>)
  ELSE LET m1 == Without(cfg, msg, NKeys)
           t0 == Addressed(cfg, msg, "tgt", "Ntgt")
           mn == Addressed(cfg, msg, "meth", "Nmeth")
           name == MethodName(s, mn, TrainM(s))
           t1 == IF mn = "inverse" /\ t0 = "" THEN "-1" ELSE t0
           h == cfg.m[name]
           co == name = "execute" /\ cfg.co > 0
           mg == h.msg /\ ~co
           checked == x # "" /\ mn \in {"", "train"}
           inv == x # "" /\ mn = "inverse"
           st == IF inv /\ cfg.inv /\ s.training
                 THEN Stop(cfg, s, NoMsg) ELSE R(s, None, <<>>)
           s2 == IF checked THEN [s EXCEPT !.started = TRUE] ELSE st.s
           c == CallM(cfg, s2, name, x, Addressed(cfg, msg, "a", "Na"), Addressed(cfg, msg, "b", "Nb"),
                      IF mg THEN m1 ELSE NoMsg)
           r == Combine(c.raw, IF mg THEN NoMsg ELSE m1, t1)
           out == IF ~c.raw.e /\ c.raw.f = "none" THEN None
                  ELSE IF r.f = "xm" /\ ~r.y THEN None ELSE r
       IN IF ~Exists(mn) THEN R(s, Err, <<>>)
          ELSE IF checked /\ x = "bad" THEN R(s, Err, <<>>)
          ELSE IF inv /\ ~cfg.inv THEN R(s, Err, <<>>)
          ELSE IF inv /\ (st.out.e \/ st.s.training) THEN R(st.s, Err, st.out.calls)
          ELSE IF inv /\ x = "bad" THEN R(st.s, Err, st.out.calls)
          ELSE IF msg.x # 0 THEN R(IF checked THEN s ELSE s2, Err, st.out.calls)
          ELSE R(c.s, out, st.out.calls \o c.call)

\* a node that was never trained is trained with the data to be executed
RECURSIVE AutoTrain(_, _, _)
AutoTrain(cfg, s, calls) ==
  LET t == TrainPlain(cfg, s, "x")
      k == Stop(cfg, t.s, NoMsg)
  IN IF t.out.e THEN R(t.s, Err, calls \o t.out.calls)
     ELSE IF cfg.n - t.s.phase > 1
     THEN IF k.out.e THEN R(k.s, Err, calls \o t.out.calls \o k.out.calls)
          ELSE AutoTrain(cfg, k.s, calls \o t.out.calls \o k.out.calls)
     ELSE R(t.s, None, calls \o t.out.calls)

PreExec(cfg, s, x) ==
  LET a == IF cfg.n > 0 /\ s.phase = 0 /\ ~s.started
           THEN IF x = "bad" THEN R(s, Err, <<>>) ELSE AutoTrain(cfg, s, <<>>)
           ELSE R(s, None, <<>>)
      k == IF a.s.training THEN Stop(cfg, a.s, NoMsg) ELSE R(a.s, None, <<>>)
      calls == a.out.calls \o k.out.calls
  IN IF a.out.e THEN a
     ELSE IF k.out.e \/ k.s.training \/ x = "bad" THEN R(k.s, Err, calls)
     ELSE R(k.s, None, calls)

Execute(cfg, s, x, msg) ==
  IF ~msg.k
  THEN IF x = "" THEN R(s, Err, <<>>)
       ELSE LET p == PreExec(cfg, s, x)
                c == CallM(cfg, p.s, "execute", "x", 0, 0, NoMsg)
            IN IF p.out.e THEN p ELSE R(c.s, c.raw, p.out.calls \o c.call)
  ELSE LET m1 == Without(cfg, msg, NKeys)
           t0 == Addressed(cfg, msg, "tgt", "Ntgt")
           mn == Addressed(cfg, msg, "meth", "Nmeth")
           name == MethodName(s, mn, "execute")
           t1 == IF mn = "inverse" /\ t0 = "" THEN "-1" ELSE t0
           h == cfg.m[name]
           mg == h.msg /\ ~(name = "execute" /\ cfg.co > 0)
           inv == x # "" /\ mn = "inverse"
           st == IF x # "" /\ mn \in {"", "execute"} THEN PreExec(cfg, s, x)
                 ELSE IF inv /\ ~cfg.inv THEN R(s, Err, <<>>)
                 ELSE IF inv
                 THEN LET k == IF s.training THEN Stop(cfg, s, NoMsg) ELSE R(s, None, <<>>)
                      IN IF k.out.e \/ k.s.training \/ x = "bad" THEN R(k.s, Err, k.out.calls) ELSE k
                 ELSE R(s, None, <<>>)
           c == CallM(cfg, st.s, name, x, Addressed(cfg, msg, "a", "Na"), Addressed(cfg, msg, "b", "Nb"),
                      IF mg THEN m1 ELSE NoMsg)
       IN IF ~Exists(mn) THEN R(s, Err, <<>>)
          ELSE IF st.out.e THEN st
          ELSE IF msg.x # 0 THEN R(st.s, Err, st.out.calls)
          ELSE R(c.s, Combine(c.raw, IF mg THEN NoMsg ELSE m1, t1), st.out.calls \o c.call)

Step(cfg, s, op) ==
  CASE op.t = "execute" -> Execute(cfg, s, op.x, op.m)
    [] op.t = "train" -> Train(cfg, s, op.x, op.m)
    [] op.t = "stop" -> Stop(cfg, s, op.m)
    [] op.t = "reset" -> R([s EXCEPT !.co = 0], None, <<>>)

\* properties of the specification itself
Plain == {"a", "b", "c", "x", "Ma"}
StepInv(cfg, s, op, r) ==
  \* keys addressed to other nodes pass untouched unless the method takes the message
  /\ \A k \in {"Ma"} : (op.t # "reset" /\ op.m[k] # 0 /\ r.out.m.k /\ ~r.out.e
                        /\ \A i \in DOMAIN r.out.calls : ~r.out.calls[i].m.k)
                       => r.out.m[k] = op.m[k]
  \* nothing addressed to this node survives
  /\ cfg.id => \A k \in NKeys : r.out.m[k] = NoMsg[k]
  /\ r.s.phase >= s.phase /\ (r.s.training => s.training)
=============================================================================
