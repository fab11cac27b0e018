------------------------------- MODULE BiFlow ------------------------------
(* bimdp.BiFlow and BiCheckpointFlow: routing of data and messages.          *)
(*                                                                           *)
(* cfg.nodes[i] = [k, id, n, ex, tr, sp]: plain or bi node, node id, number  *)
(* of training phases (0: not trainable), and for bi nodes what the k-th     *)
(* execute / train call since the last reset returns and what stop_training  *)
(* returns: [f, a, r, t], f = "x" only data, "m" data and message, "t" data, *)
(* message and target, "n" None.  After the end of a script only the data is *)
(* returned (None by train).  Node i maps a row v to Row(v, i); the data     *)
(* given to stop results is the row 5.  A message has the keys a (number),   *)
(* r (array of one number), pa ("p->a": a for the node with id p), 0 for a   *)
(* missing key.  Data <<>> is None.  Nodes with the id q take the whole      *)
(* message, so that nothing of it is passed on by the flow.                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC

NoMsg == [a |-> 0, r |-> 0, pa |-> 0]
Row(v, i) == (v * 11 + i) % 99991
Map(x, i) == [j \in DOMAIN x |-> Row(x[j], i)]
Upd(m, e) == [a |-> IF e.a # 0 THEN e.a ELSE m.a, r |-> IF e.r # 0 THEN e.r ELSE m.r, pa |-> m.pa]
Codes == {"1", "-1", "2", "-2", "3", "-3", "0"}
Num(t) == CASE t = "1" -> 1 [] t = "-1" -> -1 [] t = "2" -> 2 [] t = "-2" -> -2
            [] t = "3" -> 3 [] t = "-3" -> -3 [] t = "0" -> 0

N(cfg) == Len(cfg.nodes)
Start(cfg) == [ns |-> [i \in 1..N(cfg) |-> [phase |-> 0, started |-> FALSE, ex |-> 0, tr |-> 0]],
               attrs |-> {}]
Reset(s) == [s EXCEPT !.ns = [i \in DOMAIN s.ns |-> [s.ns[i] EXCEPT !.ex = 0, !.tr = 0]]]
Training(cfg, s, i) == s.ns[i].phase < cfg.nodes[i].n
Close(s, i) == [s EXCEPT !.ns[i].phase = @ + 1, !.ns[i].started = FALSE]

L(i, k, x, a, r) == <<[n |-> i, k |-> k, x |-> x, a |-> a, r |-> r]>>
\* a node still in training is closed by its execution, one never trained is
\* trained with the data: the remaining phases before the last
RECURSIVE Auto(_, _, _, _, _)
Auto(cfg, s, i, x, log) ==
  LET s1 == [s EXCEPT !.ns[i].started = TRUE, !.ns[i].tr = IF cfg.nodes[i].k = "bi" THEN @ + 1 ELSE @]
      l1 == log \o L(i, "train", x, 0, 0)
  IN IF cfg.nodes[i].n - s.ns[i].phase > 1
     THEN Auto(cfg, Close(s1, i), i, x, l1 \o L(i, "stop", <<>>, 0, 0))
     ELSE [s |-> s1, log |-> l1]
Ready(cfg, s, i, x) ==
  IF ~Training(cfg, s, i) THEN [s |-> s, log |-> <<>>, e |-> FALSE]
  ELSE LET a == IF s.ns[i].phase = 0 /\ ~s.ns[i].started THEN Auto(cfg, s, i, x, <<>>) ELSE [s |-> s, log |-> <<>>]
       IN IF ~a.s.ns[i].started THEN [s |-> a.s, log |-> a.log, e |-> TRUE]
          ELSE LET c == Close(a.s, i)
               IN [s |-> c, log |-> a.log \o L(i, "stop", <<>>, 0, 0), e |-> Training(cfg, c, i)]

\* what bi node i is given by its message, and what remains of it
GivenA(cfg, i, m) == IF cfg.nodes[i].id = "p" /\ m.pa # 0 THEN m.pa ELSE m.a
Rest(cfg, i, m) == CASE cfg.nodes[i].id = "p" -> [m EXCEPT !.pa = 0]
                     [] cfg.nodes[i].id = "q" -> NoMsg
                     [] OTHER -> m

\* execution of node i: new state, data, message, target ("" is the next)
Exec(cfg, s, i, x, m) ==
  LET nd == cfg.nodes[i]
      p == IF x = <<>> THEN [s |-> s, log |-> <<>>, e |-> FALSE] ELSE Ready(cfg, s, i, x)
  IN IF nd.k = "plain"
     THEN IF x = <<>>
          THEN IF Training(cfg, s, i) /\ s.ns[i].started
               THEN [e |-> TRUE, s |-> Close(s, i), log |-> L(i, "stop", <<>>, 0, 0)]
               ELSE [e |-> TRUE, s |-> s, log |-> <<>>]
          ELSE IF p.e THEN [e |-> TRUE, s |-> p.s, log |-> p.log]
          ELSE [e |-> FALSE, s |-> p.s, log |-> p.log \o L(i, "exec", x, 0, 0), x |-> Map(x, i), m |-> m, t |-> ""]
     ELSE IF (x = <<>> /\ m = NoMsg) \/ p.e THEN [e |-> TRUE, s |-> p.s, log |-> p.log]
     ELSE LET v == p.s.ns[i].ex + 1
              r == IF v <= Len(nd.ex) THEN nd.ex[v] ELSE [f |-> "x", a |-> 0, r |-> 0, t |-> ""]
              rest == Rest(cfg, i, m)
          IN [e |-> FALSE, s |-> [p.s EXCEPT !.ns[i].ex = v],
              log |-> p.log \o L(i, "exec", x, GivenA(cfg, i, m), m.r),
              x |-> IF r.f = "z" THEN <<>> ELSE Map(x, i), m |-> IF r.f = "x" THEN rest ELSE Upd(rest, r), t |-> IF r.f = "t" THEN r.t ELSE ""]

Owner(cfg, t) == {i \in 1..N(cfg) : cfg.nodes[i].k = "bi" /\ cfg.nodes[i].id = t}
First(S) == CHOOSE i \in S : \A j \in S : i <= j

\* run from node i on; k = "end", "exit", "back" (left at the front), "stop"
\* (arrived at node stop), "lost" (unknown target) or "err"
RECURSIVE Flow(_, _, _, _, _, _, _)
Flow(cfg, s, i, x, m, stop, log) ==
  IF i = stop THEN [k |-> "stop", s |-> s, x |-> x, m |-> m, log |-> log]
  ELSE LET r == Exec(cfg, s, i, x, m)
           lg == log \o r.log
           Fin(k) == [k |-> k, s |-> r.s, x |-> r.x, m |-> r.m, log |-> lg]
           j == i + Num(r.t)
       IN IF r.e THEN [k |-> "err", s |-> r.s, log |-> lg]
          ELSE IF r.t = "" THEN IF i = N(cfg) THEN Fin("end") ELSE Flow(cfg, r.s, i + 1, r.x, r.m, stop, lg)
          ELSE IF r.t \in Codes
          THEN IF j = N(cfg) + 1 THEN Fin("end") ELSE IF j = 0 THEN Fin("back")
               ELSE IF j < 0 \/ j > N(cfg) THEN [k |-> "err", s |-> r.s, log |-> lg]
               ELSE Flow(cfg, r.s, j, r.x, r.m, stop, lg)
          ELSE IF r.t = "exit" THEN Fin("exit")
          ELSE IF Owner(cfg, r.t) = {} THEN Fin("lost")
          ELSE Flow(cfg, r.s, First(Owner(cfg, r.t)), r.x, r.m, stop, lg)

\* index of a target relative to node i, 0 if there is none
Index(cfg, t, i) == LET j == i + Num(t)
                    IN IF t = "" THEN (IF i < N(cfg) THEN i + 1 ELSE 0)
                       ELSE IF t \in Codes THEN (IF j \in 1..N(cfg) THEN j ELSE 0)
                       ELSE IF Owner(cfg, t) = {} THEN 0 ELSE First(Owner(cfg, t))

Out(e, y, m, rs, log) == [e |-> e, y |-> y, a |-> m.a, pa |-> m.pa, rs |-> rs, log |-> log]
R(s, out) == [s |-> s, out |-> out]
Fail(s, log) == R(Reset(s), Out(TRUE, <<>>, NoMsg, <<>>, log))

\* ------------------------------------------------------------- execution --
\* chunks: <<[x, m, t]>>
RECURSIVE Chunks(_, _, _, _, _, _, _, _)
Chunks(cfg, s, cs, k, y, m, rs, log) ==
  IF k > Len(cs) THEN R(s, Out(FALSE, y, m, rs, log))
  ELSE LET c == cs[k]
           i == IF c.t = "" THEN 1 ELSE Index(cfg, c.t, 1)
           r == Flow(cfg, Reset(s), i, c.x, c.m, -1, log)
       IN IF i = 0 THEN Fail(s, log)
          ELSE IF r.k \notin {"end", "exit", "back"} THEN Fail(r.s, r.log)
          ELSE IF k > 1 /\ (r.x = <<>>) # (y = <<>>) THEN Fail(r.s, r.log)
          ELSE Chunks(cfg, Reset(r.s), cs, k + 1, y \o r.x, [m EXCEPT !.a = @ + r.m.a, !.pa = @ + r.m.pa],
                      IF r.m.r = 0 THEN rs ELSE Append(rs, r.m.r), r.log)

Execute(cfg, s, cs) == IF cs = <<>> THEN Fail(s, <<>>) ELSE Chunks(cfg, s, cs, 1, <<>>, NoMsg, <<>>, <<>>)

\* -------------------------------------------------------------- training --
\* one chunk for node i: run to node i, train it, go on while it wants
RECURSIVE TrainChunk(_, _, _, _, _, _, _)
TrainChunk(cfg, s, i, from, x, m, log) ==
  LET q == Flow(cfg, s, from, x, m, i, log)
      nd == cfg.nodes[i]
      v == q.s.ns[i].tr + 1
      r == IF v <= Len(nd.tr) THEN nd.tr[v] ELSE [f |-> "n", a |-> 0, r |-> 0, t |-> ""]
      s1 == [q.s EXCEPT !.ns[i].started = @ \/ q.x # <<>>, !.ns[i].tr = v]
      rest == Rest(cfg, i, q.m)
      j == Index(cfg, IF r.f = "t" THEN r.t ELSE "", i)
      lg == q.log \o (IF nd.k = "plain" THEN L(i, "train", q.x, 0, 0)
                      ELSE L(i, "train", q.x, GivenA(cfg, i, q.m), q.m.r))
  IN IF q.k # "stop" THEN [e |-> TRUE, s |-> q.s, log |-> q.log]
     ELSE IF ~Training(cfg, q.s, i) THEN [e |-> TRUE, s |-> q.s, log |-> q.log]
     ELSE IF q.x = <<>> /\ (nd.k = "plain" \/ q.m = NoMsg) THEN [e |-> TRUE, s |-> q.s, log |-> q.log]
     ELSE IF nd.k = "plain" THEN [e |-> FALSE, s |-> [q.s EXCEPT !.ns[i].started = TRUE], log |-> lg]
     ELSE IF r.f = "n" \/ (q.x = <<>> /\ r.f \in {"x", "m"}) THEN [e |-> FALSE, s |-> s1, log |-> lg]
     ELSE IF j = 0 THEN [e |-> TRUE, s |-> s1, log |-> lg]
     ELSE TrainChunk(cfg, s1, i, j, q.x, IF r.f = "x" THEN rest ELSE Upd(rest, r), lg)

RECURSIVE TrainChunks(_, _, _, _, _, _)
TrainChunks(cfg, s, i, cs, k, log) ==
  IF k > Len(cs) THEN [e |-> FALSE, s |-> s, log |-> log]
  ELSE LET r == TrainChunk(cfg, Reset(s), i, 1, cs[k].x, cs[k].m, log)
       IN IF r.e THEN r ELSE TrainChunks(cfg, Reset(r.s), i, cs, k + 1, r.log)

StopNode(cfg, s, i, sm, log) ==
  LET nd == cfg.nodes[i]
      lg == log \o L(i, "stop", <<>>, IF nd.k = "bi" THEN GivenA(cfg, i, sm) ELSE 0, 0)
      c == Close(s, i)
      rest == Rest(cfg, i, sm)
      none == nd.k = "plain" \/ (nd.sp.f = "n" /\ rest = NoMsg)
      x == IF nd.sp.f = "n" THEN <<>> ELSE <<5>>
      m == IF nd.sp.f \in {"n", "x"} THEN rest ELSE Upd(rest, nd.sp)
      t == IF nd.sp.f = "t" THEN nd.sp.t ELSE ""
      j == Index(cfg, t, i)
      q == Flow(cfg, c, j, x, m, -1, lg)
  IN IF ~s.ns[i].started THEN [e |-> TRUE, s |-> s, log |-> log]
     ELSE IF nd.k = "plain" /\ sm # NoMsg THEN [e |-> TRUE, s |-> s, log |-> log]
     ELSE IF none THEN [e |-> FALSE, s |-> c, log |-> lg]
     ELSE IF t = "exit" THEN [e |-> FALSE, s |-> c, log |-> lg]
     ELSE IF j = 0 THEN [e |-> TRUE, s |-> c, log |-> lg]
     ELSE [e |-> q.k \in {"err", "lost"}, s |-> q.s, log |-> q.log]

\* all phases of node i; it = [k, cs]: list, iter (once only), none
RECURSIVE TrainNode(_, _, _, _, _, _)
TrainNode(cfg, s, i, it, sm, log) ==
  IF ~Training(cfg, s, i) THEN [e |-> FALSE, s |-> s, log |-> log]
  ELSE IF it.k = "none" \/ it.cs = <<>> THEN [e |-> TRUE, s |-> s, log |-> log]
  ELSE LET a == TrainChunks(cfg, s, i, it.cs, 1, log)
           b == StopNode(cfg, a.s, i, sm, a.log)
       IN IF a.e THEN a ELSE IF b.e THEN b
          ELSE TrainNode(cfg, Reset(b.s), i, IF it.k = "iter" THEN [it EXCEPT !.cs = <<>>] ELSE it, sm, b.log)

RECURSIVE TrainAll(_, _, _, _, _, _, _)
TrainAll(cfg, s, i, its, sms, cps, log) ==
  IF i > N(cfg) THEN R(Reset(s), Out(FALSE, <<>>, NoMsg, <<>>, log))
  ELSE LET none == its[i].k = "none" /\ cfg.nodes[i].n > 0   \* refused even if trained already
           r == IF none THEN [e |-> TRUE, s |-> s, log |-> log]
                ELSE TrainNode(cfg, s, i, its[i], sms[i], log)
           cp == cps # <<>> /\ cps[i] # "none"
           s2 == IF cp /\ cps[i] = "dict" THEN [r.s EXCEPT !.attrs = @ \cup {i}] ELSE r.s
       IN IF r.e THEN Fail(r.s, r.log)
          ELSE TrainAll(cfg, s2, i + 1, its, sms, cps, IF cp THEN r.log \o L(i, "cp", <<>>, 0, 0) ELSE r.log)

Train(cfg, s, op) ==
  IF Len(op.its) # N(cfg) THEN Fail(s, <<>>)
  ELSE TrainAll(cfg, s, 1, op.its, op.sms, op.cps, <<>>)

\* ---------------------------------------------------------------- access --
Get(cfg, s, id) == R(s, IF Owner(cfg, id) = {} THEN Out(TRUE, <<>>, NoMsg, <<>>, <<>>)
                        ELSE Out(FALSE, <<First(Owner(cfg, id))>>, NoMsg, <<>>, <<>>))
Has(cfg, s, id) == R(s, Out(FALSE, IF Owner(cfg, id) = {} THEN <<0>> ELSE <<1>>, NoMsg, <<>>, <<>>))

Step(cfg, s, op) ==
  CASE op.t = "execute" -> Execute(cfg, s, op.cs)
    [] op.t = "train" -> Train(cfg, s, op)
    [] op.t = "get" -> Get(cfg, s, op.id)
    [] op.t = "has" -> Has(cfg, s, op.id)
    [] op.t \in {"set", "del"} -> R(s, Out(TRUE, <<>>, NoMsg, <<>>, <<>>))   \* by id: not supported

\* properties of the specification itself
StepInv(cfg, s, op, r) ==
  LET lg == r.out.log
      At(k) == {j \in DOMAIN lg : lg[j].k = k}
  IN /\ \A i \in 1..N(cfg) : r.s.ns[i].phase >= s.ns[i].phase /\ r.s.ns[i].phase <= cfg.nodes[i].n
     \* each row a node is given has passed exactly the nodes executed before in this chunk
     /\ op.t = "execute" /\ ~r.out.e /\ Len(op.cs) = 1 /\ op.cs[1].x # <<>> =>
          \A p, q \in At("exec") : (q > p /\ \A z \in At("exec") : ~(p < z /\ z < q)) =>
            lg[q].x \in {Map(lg[p].x, lg[p].n), <<>>}
     /\ (op.t = "train" /\ ~r.out.e) => \A i \in 1..N(cfg) : ~Training(cfg, r.s, i)
     \* every phase of every node is closed exactly once
     /\ \A i \in 1..N(cfg) : r.s.ns[i].phase - s.ns[i].phase = Cardinality({j \in At("stop") : lg[j].n = i})
=============================================================================
