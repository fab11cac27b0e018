------------------------------- MODULE Layer -------------------------------
(* mdp.hinet.Layer, CloneLayer and SameInputLayer: every node processes its  *)
(* own slice of the data (the whole data), the outputs are concatenated.     *)
(*                                                                           *)
(* cfg: [kind : "layer" | "clone" | "same", m : copies of the single node of *)
(* a clone layer, dt : dtype given to the layer ("" none), nodes], each node *)
(* [in, out, so, n, done, inv, oi, dt, sup]: input dimension (0 unset),      *)
(* output dimension (0: unset, then set to so when its training ends, or to  *)
(* the input dimension when first executed), number of training phases, done *)
(* if trained beforehand, invertible, output is of integer type, dtype,      *)
(* supported dtypes.  Node i maps the row x to F(i, x, ..), values doubled   *)
(* so that the half of nodes with real output is an integer.                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC

NN(cfg) == Len(cfg.nodes)
Slots(cfg) == IF cfg.kind = "clone" THEN cfg.m ELSE NN(cfg)
At(cfg, k) == IF cfg.kind = "clone" THEN 1 ELSE k
RECURSIVE Sum(_, _)
Sum(f, k) == IF k = 0 THEN 0 ELSE f[k] + Sum(f, k - 1)
Max(S) == IF S = {} THEN 0 ELSE CHOOSE a \in S : \A b \in S : b <= a
Supp(cfg) == {t \in {"f4", "f8"} : \A i \in 1..NN(cfg) : \E q \in DOMAIN cfg.nodes[i].sup : cfg.nodes[i].sup[q] = t}
Idim(cfg) == IF cfg.kind = "same" THEN cfg.nodes[1].in
             ELSE Sum([k \in 1..Slots(cfg) |-> cfg.nodes[At(cfg, k)].in], Slots(cfg))
Odim(cfg, ns) == IF \E i \in 1..NN(cfg) : ns[i].od = 0 THEN 0
                 ELSE Sum([k \in 1..Slots(cfg) |-> ns[At(cfg, k)].od], Slots(cfg))
Phases(cfg) == Max({cfg.nodes[i].n : i \in 1..NN(cfg)})
Trainable(cfg) == \E i \in 1..NN(cfg) : cfg.nodes[i].n > 0 /\ ~cfg.nodes[i].done
Training(cfg, s) == Trainable(cfg) /\ s.phase < Phases(cfg)
NodeTraining(cfg, s, i) == s.ns[i].phase < cfg.nodes[i].n

\* the columns of slot k
InCols(cfg, k) == IF cfg.kind = "same" THEN [a |-> 1, b |-> Idim(cfg)]
                  ELSE LET p == Sum([j \in 1..Slots(cfg) |-> cfg.nodes[At(cfg, j)].in], k - 1)
                       IN [a |-> p + 1, b |-> p + cfg.nodes[At(cfg, k)].in]
OutCols(cfg, ns, k) == LET p == Sum([j \in 1..Slots(cfg) |-> ns[At(cfg, j)].od], k - 1)
                       IN [a |-> p + 1, b |-> p + ns[At(cfg, k)].od]
Cut(x, c) == [r \in DOMAIN x |-> SubSeq(x[r], c.a, c.b)]
RECURSIVE Dot(_, _)
Dot(r, k) == IF k = 0 THEN 0 ELSE k * r[k] + Dot(r, k - 1)
F(cfg, i, r, j, a, base) == 2 * ((Dot(r, Len(r)) + base * i + 3 * j + 50 * a) % 9973) + (IF cfg.nodes[i].oi THEN 0 ELSE 1)
RECURSIVE Cat(_, _)
Cat(f, k) == IF k = 0 THEN <<>> ELSE Cat(f, k - 1) \o f[k]
Out(cfg, ns, x, a) ==
  [r \in DOMAIN x |-> Cat([k \in 1..Slots(cfg) |->
     LET i == At(cfg, k)
     IN [j \in 1..ns[i].od |-> F(cfg, i, Cut(x, InCols(cfg, k))[r], j, a, 10)]], Slots(cfg))]
Inv(cfg, ns, y, a) ==
  [r \in DOMAIN y |-> Cat([k \in 1..Slots(cfg) |->
     LET i == At(cfg, k)
     IN [j \in 1..cfg.nodes[i].in |-> F(cfg, i, Cut(y, OutCols(cfg, ns, k))[r], j, a, 77)]], Slots(cfg))]

\* --------------------------------------------------------------------------
Start(cfg) == [made |-> FALSE, bad |-> FALSE, dt |-> "", od |-> 0, phase |-> 0, started |-> FALSE,
               ns |-> [i \in 1..NN(cfg) |-> [od |-> 0, phase |-> 0]]]
NoLog(cfg) == [i \in 1..NN(cfg) |-> <<>>]
R(s, y, log) == [s |-> s, out |-> [e |-> FALSE, y |-> y, log |-> log]]
Refuse(cfg, s) == [s |-> s, out |-> [e |-> TRUE, y |-> <<>>, log |-> NoLog(cfg)]]
\* fails half way: what is left behind is not specified
Bad(s) == [s |-> [s EXCEPT !.bad = TRUE], out |-> [e |-> TRUE, y |-> "*", log |-> "*"]]
Open(s) == [s |-> [s EXCEPT !.bad = TRUE], out |-> [e |-> "*", y |-> "*", log |-> "*"]]

New(cfg, s) ==
  LET dts == {cfg.nodes[i].dt : i \in 1..NN(cfg)} \ {""}
      all == dts \cup ({cfg.dt} \ {""})
      t == IF all = {} THEN "" ELSE CHOOSE v \in all : TRUE
      ns == [i \in 1..NN(cfg) |-> [od |-> cfg.nodes[i].out, phase |-> IF cfg.nodes[i].done THEN cfg.nodes[i].n ELSE 0]]
  IN IF (\E i \in 1..NN(cfg) : cfg.nodes[i].in = 0) \/ Cardinality(all) > 1 \/ ~(all \subseteq Supp(cfg))
        \/ (cfg.kind = "same" /\ \E i \in 1..NN(cfg) : cfg.nodes[i].in # cfg.nodes[1].in)
     THEN Refuse(cfg, s)
     ELSE R([s EXCEPT !.made = TRUE, !.dt = t, !.ns = ns, !.od = Odim(cfg, ns)], <<>>, NoLog(cfg))

\* the data of a call: [x |-> rows, dt, w |-> width]
Fits(cfg, d) == d.w = Idim(cfg) /\ Len(d.x) > 0
Typed(cfg, s, d) == IF s.dt = "" /\ d.dt \in Supp(cfg) THEN [s EXCEPT !.dt = d.dt] ELSE s
TypeOk(cfg, s, d) == s.dt # "" \/ d.dt \in Supp(cfg)

DoTrain(cfg, s, d, a) ==
  [s |-> [s EXCEPT !.started = TRUE],
   log |-> [i \in 1..NN(cfg) |->
      IF ~NodeTraining(cfg, s, i) THEN <<>>
      ELSE IF cfg.kind = "clone"
      THEN [k \in 1..cfg.m |-> [k |-> "train", p |-> s.ns[1].phase, x |-> Cut(d.x, InCols(cfg, k)), a |-> a]]
      ELSE <<[k |-> "train", p |-> s.ns[i].phase, x |-> Cut(d.x, InCols(cfg, i)), a |-> a]>>]]
DoStop(cfg, s, a) ==
  LET ns == [i \in 1..NN(cfg) |->
               IF ~NodeTraining(cfg, s, i) THEN s.ns[i]
               ELSE [od |-> IF s.ns[i].od = 0 /\ s.ns[i].phase + 1 = cfg.nodes[i].n THEN cfg.nodes[i].so ELSE s.ns[i].od,
                     phase |-> s.ns[i].phase + 1]]
  IN [s |-> [s EXCEPT !.started = FALSE, !.phase = @ + 1, !.ns = ns, !.od = IF @ = 0 THEN Odim(cfg, ns) ELSE @],
      log |-> [i \in 1..NN(cfg) |-> IF NodeTraining(cfg, s, i)
                                     THEN <<[k |-> "stop", p |-> s.ns[i].phase, x |-> <<>>, a |-> a]>> ELSE <<>>]]
Join(cfg, l1, l2) == [i \in 1..NN(cfg) |-> l1[i] \o l2[i]]

Train(cfg, s, d, a) ==
  IF ~Training(cfg, s) THEN Refuse(cfg, s)
  ELSE IF ~TypeOk(cfg, s, d) \/ ~Fits(cfg, d) THEN Refuse(cfg, Typed(cfg, s, d))
  ELSE LET t == DoTrain(cfg, Typed(cfg, s, d), d, a) IN R(t.s, <<>>, t.log)
Stop(cfg, s, a) ==
  IF ~Training(cfg, s) \/ ~s.started THEN Refuse(cfg, s)
  ELSE LET t == DoStop(cfg, s, a) IN R(t.s, <<>>, t.log)

\* a layer never trained is trained with the data it is to execute
RECURSIVE Auto(_, _, _, _)
Auto(cfg, s, d, log) ==
  LET t == DoTrain(cfg, s, d, 0)
      u == DoStop(cfg, t.s, 0)
      l == Join(cfg, Join(cfg, log, t.log), u.log)
  IN IF u.s.phase < Phases(cfg) THEN Auto(cfg, u.s, d, l) ELSE [s |-> u.s, log |-> l]
Execute(cfg, s, d, a) ==
  LET fresh == Training(cfg, s) /\ s.phase = 0 /\ ~s.started
      z == Typed(cfg, s, d)
      c == IF fresh THEN Auto(cfg, z, d, NoLog(cfg))
           ELSE IF Training(cfg, s) THEN DoStop(cfg, z, 0) ELSE [s |-> z, log |-> NoLog(cfg)]
      ns == [i \in 1..NN(cfg) |-> IF c.s.ns[i].od = 0 THEN [c.s.ns[i] EXCEPT !.od = cfg.nodes[i].in] ELSE c.s.ns[i]]
  IN IF Training(cfg, s) /\ ~fresh /\ (~s.started \/ s.phase + 1 < Phases(cfg) \/ ~Fits(cfg, d)) THEN Bad(s)
     ELSE IF ~TypeOk(cfg, s, d) \/ ~Fits(cfg, d) THEN Refuse(cfg, z)
     ELSE R([c.s EXCEPT !.ns = ns, !.od = Odim(cfg, ns)], Out(cfg, ns, d.x, a), c.log)
Inverse(cfg, s, d, a) ==
  LET c == IF Training(cfg, s) THEN DoStop(cfg, s, 0) ELSE [s |-> s, log |-> NoLog(cfg)]
  IN IF cfg.kind = "same" \/ \E i \in 1..NN(cfg) : ~cfg.nodes[i].inv THEN Refuse(cfg, s)
     ELSE IF Training(cfg, s) /\ ~s.started THEN Refuse(cfg, s)
     ELSE IF Training(cfg, s) /\ s.phase + 1 < Phases(cfg) THEN Bad(s)
     ELSE IF c.s.od = 0 THEN Open(s)
     ELSE IF d.w # c.s.od THEN (IF Training(cfg, s) THEN Bad(s) ELSE Refuse(cfg, s))
     ELSE R(c.s, Inv(cfg, c.s.ns, d.x, a), c.log)
SetDt(cfg, s, t) == IF t = "" THEN R(s, <<>>, NoLog(cfg))
                    ELSE IF (s.dt # "" /\ s.dt # t) \/ t \notin Supp(cfg) THEN Refuse(cfg, s)
                    ELSE R([s EXCEPT !.dt = t], <<>>, NoLog(cfg))

Step(cfg, s, op) ==
  CASE op.t = "new" -> New(cfg, s)
    [] op.t = "train" -> Train(cfg, s, op.d, op.a)
    [] op.t = "stop" -> Stop(cfg, s, op.a)
    [] op.t = "execute" -> Execute(cfg, s, op.d, op.a)
    [] op.t = "inverse" -> Inverse(cfg, s, op.d, op.a)
    [] op.t = "setdt" -> SetDt(cfg, s, op.dt)

\* properties of the specification itself
StepInv(cfg, s, op, r) ==
  /\ s.made /\ s.od # 0 => r.s.od = s.od
  /\ s.dt # "" => r.s.dt = s.dt
  /\ \A i \in 1..NN(cfg) : r.s.ns[i].phase >= s.ns[i].phase \/ ~r.s.made
  /\ (op.t = "execute" /\ ~r.s.bad /\ ~r.out.e) =>
       /\ r.s.od # 0 /\ Len(r.out.y) = Len(op.d.x) /\ \A q \in DOMAIN r.out.y : Len(r.out.y[q]) = r.s.od
       /\ ~Training(cfg, r.s) /\ \A i \in 1..NN(cfg) : ~NodeTraining(cfg, r.s, i)
  \* a node in training is in the phase of the layer
  /\ r.s.made /\ ~r.s.bad => \A i \in 1..NN(cfg) : NodeTraining(cfg, r.s, i) => r.s.ns[i].phase = r.s.phase
=============================================================================
