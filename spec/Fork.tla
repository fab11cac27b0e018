-------------------------------- MODULE Fork --------------------------------
(* Forking and joining of nodes that can be trained in parallel.  What a     *)
(* node has learned is the bag of chunks it has seen in each training phase; *)
(* the driver turns the bags into real results by training a fresh node of   *)
(* the same class, in one piece, on the same chunks.                         *)
EXTENDS Integers, Sequences, FiniteSets, TLC

\* cfg: [kind : class of the node, phases : number of training phases, n : chunks,
\*       x : [e, t] how often a part that collects data while it is executed sees a chunk
\*           when the node is executed on it, trained on it (0: no such part)]
\* node: [ph : phase, bag : phase -> chunk -> times seen, ex : chunk -> times collected, dead : already joined]
Empty(cfg) == [p \in 1..cfg.phases |-> [c \in 1..cfg.n |-> 0]]
Start(cfg) == [nodes |-> <<>>, bad |-> FALSE]
Ok(s) == [s |-> s, out |-> [e |-> FALSE]]
Refuse(s) == [s |-> s, out |-> [e |-> TRUE]]
Training(cfg, n) == n.ph <= cfg.phases
HasSeen(n) == \E c \in DOMAIN n.bag[1] : n.bag[n.ph][c] > 0

\* j: index of a node, c: a chunk
Step(cfg, s, op) ==
  CASE op.t = "new" -> Ok([s EXCEPT !.nodes = <<[ph |-> 1, bag |-> Empty(cfg), ex |-> [c \in 1..cfg.n |-> 0], dead |-> FALSE]>>])
    [] op.t = "train" ->
         LET n == s.nodes[op.j] IN
         IF ~Training(cfg, n) THEN Refuse(s)
         ELSE Ok([s EXCEPT !.nodes[op.j].bag[n.ph][op.c] = @ + 1, !.nodes[op.j].ex[op.c] = @ + cfg.x.t])
    \* executing a node that is trained
    [] op.t = "exec" -> Ok([s EXCEPT !.nodes[op.j].ex[op.c] = @ + cfg.x.e])
    \* a fork is in the same phase, has what earlier phases gave, and nothing of this one
    [] op.t = "fork" ->
         LET n == s.nodes[op.j]
             f == [n EXCEPT !.ex = [c \in 1..cfg.n |-> 0]]
         IN Ok([s EXCEPT !.nodes = Append(@, IF Training(cfg, n) THEN [f EXCEPT !.bag[n.ph] = [c \in 1..cfg.n |-> 0]] ELSE f)])
    [] op.t = "join" ->
         LET n == s.nodes[op.j]
             m == s.nodes[op.k]
             g == [n EXCEPT !.ex = [c \in 1..cfg.n |-> n.ex[c] + m.ex[c]]]
         IN Ok([s EXCEPT !.nodes[op.j] = IF Training(cfg, n) THEN [g EXCEPT !.bag[n.ph] = [c \in 1..cfg.n |-> n.bag[n.ph][c] + m.bag[n.ph][c]]] ELSE g,
                         !.nodes[op.k].dead = TRUE])
    [] op.t = "stop" ->
         LET n == s.nodes[op.j] IN
         IF ~Training(cfg, n) \/ ~HasSeen(n) THEN Refuse(s)
         \* parts of composite nodes are shared with their forks: the forks are done with
         ELSE Ok([s EXCEPT !.nodes = [k \in DOMAIN s.nodes |-> IF k = op.j THEN [n EXCEPT !.ph = @ + 1] ELSE [s.nodes[k] EXCEPT !.dead = TRUE]]])

\* all the forks that may be joined into j: same phase, same past
Joinable(cfg, s, j) == {k \in 1..Len(s.nodes) : k # j /\ ~s.nodes[k].dead /\ s.nodes[k].ph = s.nodes[j].ph /\ (Training(cfg, s.nodes[j]) \/ cfg.x.e > 0)
                          /\ \A p \in 1..(s.nodes[j].ph - 1) : s.nodes[k].bag[p] = s.nodes[j].bag[p]}

\* nothing is lost or counted twice: every chunk given to a node alive or joined is in exactly one bag
Total(cfg, s, p, c) == LET RECURSIVE Sum(_)
                           Sum(S) == IF S = {} THEN 0 ELSE LET k == CHOOSE k \in S : TRUE
                                     IN (IF s.nodes[k].dead \/ s.nodes[k].ph # p THEN 0 ELSE s.nodes[k].bag[p][c]) + Sum(S \ {k})
                       IN Sum(1..Len(s.nodes))
Collected(cfg, s, c) == LET RECURSIVE Sum(_)
                            Sum(S) == IF S = {} THEN 0 ELSE LET k == CHOOSE k \in S : TRUE
                                      IN (IF s.nodes[k].dead THEN 0 ELSE s.nodes[k].ex[c]) + Sum(S \ {k})
                        IN Sum(1..Len(s.nodes))
StepInv(cfg, s, op, r) ==
  /\ op.t \in {"fork", "join"} => \A c \in 1..cfg.n : Collected(cfg, r.s, c) = Collected(cfg, s, c)
  /\ op.t \in {"fork", "join"} => \A p \in 1..cfg.phases : \A c \in 1..cfg.n : Total(cfg, r.s, p, c) = Total(cfg, s, p, c)
  /\ op.t = "train" /\ ~r.out.e => Total(cfg, r.s, s.nodes[op.j].ph, op.c) = Total(cfg, s, s.nodes[op.j].ph, op.c) + 1
  /\ \A k \in 1..Len(s.nodes) : op.t # "stop" => ((op.t \in {"new", "fork"} \/ k \notin {op.j} \cup (IF op.t = "join" THEN {op.k} ELSE {})) => r.s.nodes[k] = s.nodes[k])
=============================================================================
