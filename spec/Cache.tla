-------------------------------- MODULE Cache --------------------------------
(* mdp.caching: results of execute are stored in a directory and served      *)
(* again for the same input to a node in the same state.                     *)
(* cfg.nodes: [cls "A" | "B", kind "plain" | "train" | "online", p, w]: class,*)
(* kind of node, parameter and input dimension (0 unset).                    *)
(* State: act, glob, cls, inst: caching active, for everything, for classes, *)
(* for instances; dir the current directory; store the stored results        *)
(* <<directory, node state, input>>; ns the nodes.  A node maps v to         *)
(* p * v + seen + a; with argument a = 99 it fails.                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC

NN(cfg) == Len(cfg.nodes)
N0(c) == [w |-> c.w, dt |-> "", ph |-> IF c.kind = "plain" THEN 1 ELSE 0, started |-> FALSE, seen |-> 0, p |-> c.p]
Start(cfg) == [act |-> FALSE, glob |-> TRUE, cls |-> {}, inst |-> {}, dir |-> "", temps |-> 0, store |-> {},
               ns |-> [i \in 1..NN(cfg) |-> N0(cfg.nodes[i])], open |-> <<>>]
Out(e, y, ran) == [e |-> e, y |-> y, ran |-> ran]
R(s, o) == [s |-> s, out |-> o]
Ok(s) == R(s, Out("", 0, 0))
Exc(s, ran) == R(s, Out("exc", 0, ran))
Set(q) == {q[i] : i \in DOMAIN q}
\* -------------------------------------------------------------- selection --
\* d = "": a new temporary directory, the previous one disappears
SetDir(s, d) ==
  IF d # "" THEN [s EXCEPT !.dir = d]
  ELSE LET name == "t" \o ToString(s.temps + 1)
       IN [s EXCEPT !.dir = name, !.temps = @ + 1,
                    !.store = {k \in @ : k[1] # "t" \o ToString(s.temps)}]
\* op.cs, op.is: classes and instances; op.all: neither is given
Activate(s, op) == [SetDir(s, op.dir) EXCEPT !.act = TRUE, !.glob = op.all, !.cls = Set(op.cs), !.inst = Set(op.is)]
Deactivate(s) == [s EXCEPT !.act = FALSE, !.glob = TRUE, !.cls = {}, !.inst = {}]
Cached(cfg, s, i) == s.glob \/ cfg.nodes[i].cls \in s.cls \/ i \in s.inst
\* -------------------------------------------------------------- execution --
Typed(n, x) == [n EXCEPT !.w = IF @ = 0 THEN x.w ELSE @, !.dt = IF @ = "" THEN x.dt ELSE @]
\* training with x: the node sums up what it sees
Trained(n, x) == [n EXCEPT !.seen = @ + x.v, !.started = TRUE]
\* what happens before an execution: [e, n]
Pre(cfg, i, n, x) ==
  LET k == cfg.nodes[i].kind
      m == Typed(n, x)
      wrong == m.w # x.w
  IN CASE n.ph = 0 /\ ~n.started -> IF wrong THEN [e |-> TRUE, n |-> m]
                                    ELSE IF k = "train" THEN [e |-> FALSE, n |-> [Trained(m, x) EXCEPT !.ph = 1, !.started = FALSE]]
                                    ELSE [e |-> FALSE, n |-> Trained(m, x)]
       [] n.ph = 0 /\ k = "train" -> [e |-> wrong, n |-> [m EXCEPT !.ph = 1, !.started = FALSE]]
       [] OTHER -> [e |-> wrong, n |-> m]
\* the data is converted to the node's dtype: the values are integers
Y(n, x, a) == n.p * x.v + n.seen + a
Key(cfg, s, i, n, x, a) == <<s.dir, cfg.nodes[i].cls, cfg.nodes[i].kind, n, x, a>>
Execute(cfg, s, op) ==
  LET i == op.i
      pre == Pre(cfg, i, s.ns[i], op.x)
      z == [s EXCEPT !.ns[i] = pre.n]
      k == Key(cfg, s, i, pre.n, op.x, op.a)
      use == s.act /\ Cached(cfg, s, i)
  IN IF pre.e THEN Exc(z, 0)
     ELSE IF use /\ k \in s.store THEN R(z, Out("", Y(pre.n, op.x, op.a), 0))
     ELSE IF op.a = 99 THEN Exc(z, 1)
     ELSE R(IF use THEN [z EXCEPT !.store = @ \cup {k}] ELSE z, Out("", Y(pre.n, op.x, op.a), 1))
Train(cfg, s, i, x) ==
  LET n == s.ns[i] IN
  IF cfg.nodes[i].kind = "plain" \/ n.ph = 1 THEN Exc(s, 0)
  ELSE LET m == Typed(n, x) IN
       IF m.w # x.w THEN Exc([s EXCEPT !.ns[i] = m], 0)
       ELSE Ok([s EXCEPT !.ns[i] = Trained(m, x)])
Stop(cfg, s, i) ==
  IF s.ns[i].ph = 1 \/ ~s.ns[i].started THEN Exc(s, 0)
  ELSE Ok([s EXCEPT !.ns[i].ph = 1, !.ns[i].started = FALSE])
Step(cfg, s, op) ==
  CASE op.t = "activate" -> Ok(Activate(s, op))
    \* like any extension, after a directory was set
    [] op.t = "generic" -> Ok([s EXCEPT !.act = TRUE])
    [] op.t = "deactivate" -> Ok(Deactivate(s))
    \* contexts may be nested; leaving any of them deactivates
    [] op.t = "enter" -> Ok([Activate(s, op) EXCEPT !.open = Append(@, 1)])
    [] op.t = "leave" -> IF s.open = <<>> THEN Exc(s, 0) ELSE Ok([Deactivate(s) EXCEPT !.open = Tail(@)])
    [] op.t = "setdir" -> Ok(SetDir(s, op.dir))
    [] op.t = "setinst" -> IF ~s.act THEN Exc(s, 0)
                           ELSE Ok([s EXCEPT !.inst = IF op.on THEN @ \cup {op.i} ELSE @ \ {op.i}])
    [] op.t = "execute" -> Execute(cfg, s, op)
    [] op.t = "train" -> Train(cfg, s, op.i, op.x)
    [] op.t = "stop" -> Stop(cfg, s, op.i)
    [] op.t = "setp" -> Ok([s EXCEPT !.ns[op.i].p = op.v])
\* caching never changes an answer
StepInv(cfg, s, op, r) ==
  op.t = "execute" =>
    LET plain == Execute(cfg, [s EXCEPT !.act = FALSE], op)
    IN r.out.y = plain.out.y /\ r.out.e = plain.out.e /\ r.s.ns = plain.s.ns
=============================================================================
