------------------------------ MODULE FlowNode ------------------------------
(* mdp.hinet.FlowNode: a flow as one node.                                   *)
(*                                                                           *)
(* cfg: [nodes, in, out, dt]: dimensions and dtype given to the flow node (0 *)
(* / "" none).  Each node is [g, in, out, so, n, pre, inv, dt, sup]: g "pd"  *)
(* keeps the dimension, "ex" has output dimension 2 * in which cannot be     *)
(* set, "" is generic; in / out dimensions at the start (0 unset), so output *)
(* dimension set when its training ends (0 none), n training phases, pre of  *)
(* them done beforehand, dtype and supported dtypes.  Node i maps the row r  *)
(* to F(i, r, od).                                                           *)
EXTENDS Integers, Sequences, FiniteSets, TLC

NN(cfg) == Len(cfg.nodes)
RECURSIVE Sum(_, _)
Sum(f, k) == IF k = 0 THEN 0 ELSE f[k] + Sum(f, k - 1)
RECURSIVE Dot(_, _)
Dot(r, k) == IF k = 0 THEN 0 ELSE k * r[k] + Dot(r, k - 1)
F(i, r, n, base) == [j \in 1..n |-> (Dot(r, Len(r)) + base * i + 3 * j) % 9973]
Map(i, x, n, base) == [q \in DOMAIN x |-> F(i, x[q], n, base)]
Supp(cfg) == {t \in {"f4", "f8"} : \A i \in 1..NN(cfg) : \E q \in DOMAIN cfg.nodes[i].sup : cfg.nodes[i].sup[q] = t}

\* ----------------------------------------- dimensions of a single node -----
OkIn(g, nd, k) == IF nd.in # 0 THEN nd.in = k ELSE g # "pd" \/ nd.od = 0 \/ nd.od = k
PutIn(g, nd, k) == IF nd.in # 0 THEN nd
                   ELSE [nd EXCEPT !.in = k, !.od = IF g = "pd" THEN k ELSE IF g = "ex" THEN 2 * k ELSE @]
OkOut(g, nd, k) == IF g = "ex" THEN FALSE ELSE IF nd.od # 0 THEN nd.od = k ELSE g # "pd" \/ nd.in = 0 \/ nd.in = k
PutOut(g, nd, k) == IF nd.od # 0 THEN nd ELSE [nd EXCEPT !.od = k, !.in = IF g = "pd" THEN k ELSE @]
Consistent(ns) == \A i \in 1..(Len(ns) - 1) : ns[i].od = 0 \/ ns[i + 1].in = 0 \/ ns[i].od = ns[i + 1].in

\* ------------------------------------------ dimensions of the flow node ----
G(cfg, i) == cfg.nodes[i].g
RECURSIVE Link(_, _, _)
Link(cfg, ns, i) ==
  IF i > NN(cfg) THEN [e |-> FALSE, ns |-> ns]
  ELSE IF ns[i].in # 0 \/ ns[i - 1].od = 0 THEN Link(cfg, ns, i + 1)
  ELSE IF ~OkIn(G(cfg, i), ns[i], ns[i - 1].od) THEN [e |-> TRUE, ns |-> ns]
  ELSE Link(cfg, [ns EXCEPT ![i] = PutIn(G(cfg, i), @, ns[i - 1].od)], i + 1)
Last(s) == s.ns[Len(s.ns)]
\* unset dimensions follow from the previous nodes; "od" of the flow node too
Fix(cfg, s) ==
  LET l == Link(cfg, s.ns, 2)
      z == [s EXCEPT !.ns = l.ns]
  IN [e |-> l.e \/ ~Consistent(l.ns), s |-> IF Last(z).od # 0 THEN [z EXCEPT !.od = Last(z).od] ELSE z]
\* e: "" done, "no" refused, "bad" failed half way
In(cfg, s, k) ==
  IF s.in # 0 THEN [e |-> IF s.in = k THEN "" ELSE "no", s |-> s]
  ELSE IF ~OkIn(G(cfg, 1), s.ns[1], k) THEN [e |-> "no", s |-> s]
  ELSE LET z == [s EXCEPT !.ns[1] = PutIn(G(cfg, 1), @, k), !.in = k]
       IN [e |-> IF Consistent(z.ns) THEN "" ELSE "bad", s |-> z]
Outd(cfg, s, k) ==
  LET n == NN(cfg)
      f == Fix(cfg, s)
  IN IF s.od # 0 THEN [e |-> IF s.od = k THEN "" ELSE "no", s |-> s]
     ELSE IF Last(s).od # 0 THEN [e |-> IF Last(s).od = k THEN "" ELSE "no", s |-> [s EXCEPT !.od = k]]
     ELSE IF n = 1 THEN [e |-> IF OkOut(G(cfg, 1), s.ns[1], k) THEN "" ELSE "no",
                         s |-> [s EXCEPT !.ns[1] = PutOut(G(cfg, 1), @, k), !.od = k]]
     ELSE IF f.e THEN [e |-> "bad", s |-> s]
     ELSE IF Last(f.s).od # 0 THEN [e |-> IF Last(f.s).od = k THEN "" ELSE "bad", s |-> f.s]
     ELSE IF Last(f.s).in = 0 \/ ~OkOut(G(cfg, n), Last(f.s), k) THEN [e |-> "bad", s |-> s]
     ELSE [e |-> "", s |-> [f.s EXCEPT !.ns[n] = PutOut(G(cfg, n), @, k), !.od = k]]
Dt(cfg, s, t) ==
  IF s.dt # "" THEN [e |-> IF s.dt = t THEN "" ELSE "no", s |-> s]
  ELSE IF t \notin Supp(cfg) THEN [e |-> "no", s |-> s]
  ELSE IF \E i \in 1..NN(cfg) : s.ns[i].dt \notin {"", t} THEN [e |-> "bad", s |-> s]
  ELSE [e |-> "", s |-> [s EXCEPT !.dt = t, !.ns = [i \in 1..NN(cfg) |-> [s.ns[i] EXCEPT !.dt = t]]]]

\* -------------------------------------------------------------- phases -----
Start(cfg) == [made |-> FALSE, bad |-> FALSE, in |-> 0, od |-> 0, dt |-> "", phase |-> 0, started |-> FALSE,
               ns |-> [i \in 1..NN(cfg) |-> [in |-> cfg.nodes[i].in, od |-> cfg.nodes[i].out, dt |-> cfg.nodes[i].dt,
                                             phase |-> cfg.nodes[i].pre]]]
NoLog(cfg) == [i \in 1..NN(cfg) |-> <<>>]
R(s, y, log) == [s |-> s, out |-> [e |-> FALSE, y |-> y, log |-> log]]
Refuse(cfg, s) == [s |-> s, out |-> [e |-> TRUE, y |-> <<>>, log |-> NoLog(cfg)]]
Bad(s) == [s |-> [s EXCEPT !.bad = TRUE], out |-> [e |-> TRUE, y |-> "*", log |-> "*"]]
Open(s) == [s |-> [s EXCEPT !.bad = TRUE], out |-> [e |-> "*", y |-> "*", log |-> "*"]]

Phases(cfg) == Sum([i \in 1..NN(cfg) |-> cfg.nodes[i].n - cfg.nodes[i].pre], NN(cfg))
Training(cfg, s) == s.phase < Phases(cfg)
\* the node in training: the first whose training is not complete
Cur(cfg, s) == CHOOSE i \in 1..NN(cfg) : s.ns[i].phase < cfg.nodes[i].n /\ \A j \in 1..(i - 1) : s.ns[j].phase = cfg.nodes[j].n

New(cfg, s) ==
  LET i == IF cfg.in # 0 THEN cfg.in ELSE s.ns[1].in
      o == IF cfg.out # 0 THEN cfg.out ELSE Last(s).od
      t == IF cfg.dt # "" THEN cfg.dt ELSE Last(s).dt
      a == IF i = 0 THEN [e |-> "", s |-> s] ELSE In(cfg, s, i)
      b == IF o = 0 THEN a ELSE Outd(cfg, a.s, o)
      c == IF t = "" THEN b ELSE Dt(cfg, b.s, t)
  IN IF ~Consistent(s.ns) THEN Bad(s)
     ELSE IF a.e # "" \/ b.e # "" \/ c.e # "" THEN Bad(s)
     ELSE R([c.s EXCEPT !.made = TRUE], <<>>, NoLog(cfg))

\* what every call taking data does first
Input(cfg, s, d) ==
  LET a == In(cfg, s, d.w)
      b == Dt(cfg, a.s, d.dt)
  IN IF s.in = 0 /\ a.e # "" THEN [e |-> a.e, s |-> s]
     ELSE IF s.dt = "" /\ b.e # "" THEN [e |-> b.e, s |-> IF s.in = 0 THEN a.s ELSE s]
     ELSE LET z == IF s.dt = "" THEN b.s ELSE IF s.in = 0 THEN a.s ELSE s
          IN [e |-> IF z.in = d.w /\ Len(d.x) > 0 THEN "" ELSE "no", s |-> z]

\* the data after nodes 1..k; nodes without output dimension keep the width
RECURSIVE Through(_, _, _, _)
Through(cfg, ns, x, k) ==
  IF k = 0 THEN [e |-> FALSE, ns |-> ns, x |-> x]
  ELSE LET p == Through(cfg, ns, x, k - 1)
           w == Len(p.x[1])
           a == PutIn(G(cfg, k), p.ns[k], w)
           b == IF a.od = 0 THEN [a EXCEPT !.od = w] ELSE a
       IN IF p.e \/ ~OkIn(G(cfg, k), p.ns[k], w) THEN [e |-> TRUE, ns |-> ns, x |-> x]
          ELSE [e |-> FALSE, ns |-> [p.ns EXCEPT ![k] = b], x |-> Map(k, p.x, b.od, 10)]

DoTrain(cfg, s, x, a) ==
  LET i == Cur(cfg, s)
      p == Through(cfg, s.ns, x, i - 1)
      w == Len(p.x[1])
  IN IF p.e THEN [e |-> TRUE]
     ELSE IF ~OkIn(G(cfg, i), p.ns[i], w) THEN [e |-> TRUE]
     ELSE [e |-> FALSE, s |-> [s EXCEPT !.started = TRUE, !.ns = [p.ns EXCEPT ![i] = PutIn(G(cfg, i), @, w)]],
           log |-> [NoLog(cfg) EXCEPT ![i] = <<[k |-> "train", p |-> s.ns[i].phase, x |-> p.x, a |-> a]>>]]
DoStop(cfg, s, a) ==
  LET i == Cur(cfg, s)
      nd == s.ns[i]
      last == nd.phase + 1 = cfg.nodes[i].n
      z == [s EXCEPT !.phase = @ + 1, !.started = FALSE,
                     !.ns[i] = [nd EXCEPT !.phase = @ + 1,
                                          !.od = IF @ = 0 /\ last THEN cfg.nodes[i].so ELSE @]]
      f == Fix(cfg, z)
      done == z.phase = Phases(cfg)
  IN [e |-> done /\ f.e, s |-> IF done THEN f.s ELSE z,
      log |-> [NoLog(cfg) EXCEPT ![i] = <<[k |-> "stop", p |-> nd.phase, x |-> <<>>, a |-> a]>>]]
Join(cfg, l1, l2) == [i \in 1..NN(cfg) |-> l1[i] \o l2[i]]

Train(cfg, s, d, a) ==
  LET c == Input(cfg, s, d)
      t == DoTrain(cfg, c.s, d.x, a)
  IN IF ~Training(cfg, s) THEN Refuse(cfg, s)
     ELSE IF c.e = "bad" THEN Bad(s) ELSE IF c.e = "no" THEN Refuse(cfg, c.s)
     ELSE IF t.e THEN Bad(s) ELSE R(t.s, <<>>, t.log)
Stop(cfg, s, a) ==
  IF ~Training(cfg, s) \/ ~s.started THEN Refuse(cfg, s)
  ELSE LET t == DoStop(cfg, s, a) IN IF t.e THEN Bad(s) ELSE R(t.s, <<>>, t.log)

RECURSIVE Auto(_, _, _, _)
Auto(cfg, s, x, log) ==
  IF ~Training(cfg, s) THEN [e |-> FALSE, s |-> s, log |-> log]
  ELSE LET t == DoTrain(cfg, s, x, 0)
           u == DoStop(cfg, t.s, 0)
       IN IF t.e THEN [e |-> TRUE] ELSE IF u.e THEN [e |-> TRUE]
          ELSE Auto(cfg, u.s, x, Join(cfg, Join(cfg, log, t.log), u.log))
Execute(cfg, s, d) ==
  LET fresh == Training(cfg, s) /\ s.phase = 0 /\ ~s.started
      c == Input(cfg, s, d)
      b == IF fresh THEN Auto(cfg, c.s, d.x, NoLog(cfg))
           ELSE IF Training(cfg, s) THEN DoStop(cfg, c.s, 0) ELSE [e |-> FALSE, s |-> c.s, log |-> NoLog(cfg)]
      p == Through(cfg, b.s.ns, d.x, NN(cfg))
      o == p.ns[NN(cfg)].od
  IN IF Training(cfg, s) /\ ~fresh /\ (~s.started \/ s.phase + 1 < Phases(cfg) \/ c.e # "") THEN Bad(s)
     ELSE IF c.e = "bad" THEN Bad(s) ELSE IF c.e = "no" THEN Refuse(cfg, c.s)
     ELSE IF b.e THEN Bad(s)
     ELSE IF p.e \/ b.s.od \notin {0, o} THEN Bad(s)
     ELSE R([b.s EXCEPT !.ns = p.ns, !.od = o], p.x, b.log)

RECURSIVE Back(_, _, _, _)
Back(cfg, ns, y, k) == IF k = 0 THEN y ELSE Back(cfg, ns, Map(k, y, ns[k].in, 77), k - 1)
Inverse(cfg, s, d) ==
  LET b == IF Training(cfg, s) THEN DoStop(cfg, s, 0) ELSE [e |-> FALSE, s |-> s, log |-> NoLog(cfg)]
  IN IF \E i \in 1..NN(cfg) : ~cfg.nodes[i].inv THEN Refuse(cfg, s)
     ELSE IF Training(cfg, s) /\ ~s.started THEN Refuse(cfg, s)
     ELSE IF Training(cfg, s) /\ s.phase + 1 < Phases(cfg) THEN Bad(s)
     ELSE IF b.e THEN Bad(s)
     ELSE IF b.s.od = 0 \/ b.s.in = 0 \/ \E i \in 1..NN(cfg) : b.s.ns[i].in = 0 \/ b.s.ns[i].od = 0 THEN Open(s)
     ELSE IF d.w # b.s.od THEN (IF Training(cfg, s) THEN Bad(s) ELSE Refuse(cfg, s))
     ELSE IF ~Consistent(b.s.ns) THEN Bad(s)
     ELSE R(b.s, Back(cfg, b.s.ns, d.x, NN(cfg)), b.log)
Set(cfg, s, q) == IF q.e = "" THEN R(q.s, <<>>, NoLog(cfg)) ELSE IF q.e = "no" THEN Refuse(cfg, s) ELSE Bad(s)

Step(cfg, s, op) ==
  \* nodes which turned out not to fit: unspecified whether it is noticed
  CASE s.made /\ ~Consistent(s.ns) /\ op.t \in {"setin", "setout", "setdt", "copy"} -> Open(s)
    [] op.t = "new" -> New(cfg, s)
    [] op.t = "train" -> Train(cfg, s, op.d, op.a)
    [] op.t = "stop" -> Stop(cfg, s, op.a)
    [] op.t = "execute" -> Execute(cfg, s, op.d)
    [] op.t = "inverse" -> Inverse(cfg, s, op.d)
    [] op.t = "setin" -> Set(cfg, s, In(cfg, s, op.n))
    [] op.t = "setout" -> Set(cfg, s, Outd(cfg, s, op.n))
    [] op.t = "setdt" -> Set(cfg, s, Dt(cfg, s, op.dt))
    [] op.t = "copy" -> R(s, <<>>, NoLog(cfg))          \* go on with the copy
    [] op.t = "badcopy" -> Refuse(cfg, s)

\* properties of the specification itself
StepInv(cfg, s, op, r) ==
  (s.made /\ r.s.made /\ ~r.s.bad) =>
    /\ s.in # 0 => r.s.in = s.in
    /\ s.od # 0 => r.s.od = s.od
    /\ r.s.in # 0 => r.s.in = r.s.ns[1].in
    /\ r.s.od # 0 => r.s.od = Last(r.s).od
    /\ r.s.phase = Sum([i \in 1..NN(cfg) |-> r.s.ns[i].phase - cfg.nodes[i].pre], NN(cfg))
    /\ \A i, j \in 1..NN(cfg) : (i < j /\ r.s.ns[j].phase > cfg.nodes[j].pre) => r.s.ns[i].phase = cfg.nodes[i].n
    /\ (op.t = "execute" /\ ~r.out.e) => ~Training(cfg, r.s) /\ r.s.od = Len(r.out.y[1]) /\ Consistent(r.s.ns)
=============================================================================
