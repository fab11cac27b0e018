-------------------------------- MODULE Graph --------------------------------
(* mdp.graph.Graph: a directed multigraph.                                   *)
(* State: ns the nodes (numbered in order of creation), es the edges         *)
(* [h, t, d] (head, tail, data), n the number of nodes ever created.         *)
(* Searches and sorts may use any order of the documented kind: the recorded *)
(* result op.res is judged.                                                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Start(cfg) == [ns |-> <<>>, es |-> <<>>, n |-> 0]
Set(q) == {q[i] : i \in DOMAIN q}
Nodes(s) == Set(s.ns)
R(s, o) == [s |-> s, out |-> o]
Ok(s) == R(s, "ok")
AddN(s, k) == [s EXCEPT !.ns = @ \o [i \in 1..k |-> s.n + i], !.n = @ + k]
E(h, t, d) == [h |-> h, t |-> t, d |-> d]
Out(s, a) == {s.es[i].t : i \in {j \in DOMAIN s.es : s.es[j].h = a}}
In(s, a) == {s.es[i].h : i \in {j \in DOMAIN s.es : s.es[j].t = a}}
\* a tree is [kids |-> sequence of trees]; nodes are created in preorder
RECURSIVE Size(_), SizeUpTo(_, _), TreeEdges(_, _), KidEdges(_, _, _)
Size(tr) == 1 + SizeUpTo(tr.kids, Len(tr.kids))
SizeUpTo(ks, k) == IF k = 0 THEN 0 ELSE SizeUpTo(ks, k - 1) + Size(ks[k])
TreeEdges(tr, id) == KidEdges(tr, id, Len(tr.kids))
KidEdges(tr, id, k) ==
  IF k = 0 THEN <<>>
  ELSE LET me == id + 1 + SizeUpTo(tr.kids, k - 1)
       IN KidEdges(tr, id, k - 1) \o <<E(id, me, 0)>> \o TreeEdges(tr.kids[k], me)
Full(hs, ts) == [k \in 1..(Len(hs) * Len(ts)) |-> E(hs[(k - 1) \div Len(ts) + 1], ts[((k - 1) % Len(ts)) + 1], 0)]
RmNode(s, a) ==
  IF a \notin Nodes(s) THEN R(s, "refused")
  ELSE Ok([s EXCEPT !.ns = SelectSeq(@, LAMBDA v : v # a), !.es = SelectSeq(@, LAMBDA e : e.h # a /\ e.t # a)])
RmEdge(s, e) ==
  IF e \notin Set(s.es) THEN R(s, "refused")
  ELSE LET k == CHOOSE i \in DOMAIN s.es : s.es[i] = e
       IN Ok([s EXCEPT !.es = SubSeq(@, 1, k - 1) \o SubSeq(@, k + 1, Len(@))])
\* ------------------------------------------------------------- searches --
Nbrs(s, a, dir) == Out(s, a) \cup IF dir THEN {} ELSE In(s, a)
RECURSIVE Reach(_, _, _)
Reach(s, S, dir) == LET T == S \cup UNION {Nbrs(s, a, dir) : a \in S} IN IF T = S THEN S ELSE Reach(s, T, dir)
NoDup(q) == \A i, j \in DOMAIN q : i # j => q[i] # q[j]
Before(q, i) == {q[j] : j \in 1..(i - 1)}
Search(s, root, q, dir, deep) ==
  /\ q # <<>> /\ q[1] = root /\ NoDup(q) /\ Set(q) = Reach(s, {root}, dir)
  /\ \A i \in 2..Len(q) :
       LET open == {j \in 1..(i - 1) : ~(Nbrs(s, q[j], dir) \subseteq Before(q, i))}
           from == CHOOSE j \in open : \A k \in open : IF deep THEN k <= j ELSE k >= j
       IN q[i] \in Nbrs(s, q[from], dir)
Cyclic(s) == {a \in Nodes(s) : a \in Reach(s, Out(s, a), TRUE)}
Topo(s, q, raised) ==
  LET stuck == Reach(s, Cyclic(s), TRUE)
  IN /\ NoDup(q) /\ Set(q) = Nodes(s) \ stuck
     /\ \A i \in DOMAIN q : In(s, q[i]) \subseteq Before(q, i)
     /\ raised = (stuck # {})
Comps(s, cs) ==
  /\ \A i \in DOMAIN cs : NoDup(cs[i]) /\ cs[i] # <<>> /\ Set(cs[i]) = Reach(s, {cs[i][1]}, FALSE)
  /\ UNION {Set(cs[i]) : i \in DOMAIN cs} = Nodes(s)
  /\ \A i, j \in DOMAIN cs : i # j => Set(cs[i]) \cap Set(cs[j]) = {}
Judge(s, b) == R(s, IF b THEN "ok" ELSE "not a correct result")
Step(cfg, s, op) ==
  CASE op.t = "node" -> Ok(AddN(s, 1))
    [] op.t = "nodes" -> Ok(AddN(s, op.k))
    [] op.t = "tree" -> Ok([AddN(s, Size(op.tree)) EXCEPT !.es = @ \o TreeEdges(op.tree, s.n + 1)])
    [] op.t = "edge" -> Ok([s EXCEPT !.es = Append(@, E(op.h, op.d2, op.d))])
    [] op.t = "full" -> Ok([s EXCEPT !.es = @ \o Full(op.hs, op.ts)])
    [] op.t = "rmnode" -> RmNode(s, op.a)
    [] op.t = "rmedge" -> RmEdge(s, E(op.h, op.d2, op.d))
    [] op.t = "dfs" -> Judge(s, Search(s, op.a, op.res, TRUE, TRUE))
    [] op.t = "udfs" -> Judge(s, Search(s, op.a, op.res, FALSE, TRUE))
    [] op.t = "bfs" -> Judge(s, Search(s, op.a, op.res, TRUE, FALSE))
    [] op.t = "ubfs" -> Judge(s, Search(s, op.a, op.res, FALSE, FALSE))
    [] op.t = "topo" -> Judge(s, Topo(s, op.res, op.raised))
    [] op.t = "comps" -> Judge(s, Comps(s, op.res))
    [] op.t = "weak" -> Judge(s, op.res = (\A a \in Nodes(s) : Reach(s, {a}, FALSE) = Nodes(s)))
StepInv(cfg, s, op, r) ==
  /\ NoDup(r.s.ns)
  /\ \A i \in DOMAIN r.s.es : {r.s.es[i].h, r.s.es[i].t} \subseteq Nodes(r.s)
=============================================================================
