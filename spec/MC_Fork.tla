------------------------------ MODULE MC_Fork ------------------------------
EXTENDS Fork, Json, IOUtils
VARIABLES cfg, s, d
Big == IOEnv.TIER = "thorough"
One == {"pca", "white", "svd", "sfa", "sfa0", "sfa2", "gauss", "mean", "knn", "hist", "cutoff", "layer", "clone", "biclone", "bicopies"}
Two == {"fda", "flow", "layers"}
None == [e |-> 0, t |-> 0]
Cfgs == {[kind |-> k, phases |-> 1, n |-> IF Big THEN 3 ELSE 2, x |-> None] : k \in One} \cup {[kind |-> k, phases |-> 2, n |-> 2, x |-> None] : k \in Two}
        \cup {[kind |-> "tally", phases |-> 0, n |-> 2, x |-> [e |-> 1, t |-> 0]], [kind |-> "xclone", phases |-> 0, n |-> 2, x |-> [e |-> 2, t |-> 0]],
               [kind |-> "xflow", phases |-> 1, n |-> 2, x |-> [e |-> 1, t |-> 1]], [kind |-> "xlayer", phases |-> 1, n |-> 2, x |-> [e |-> 1, t |-> 0]],
               [kind |-> "xdeep", phases |-> 1, n |-> 2, x |-> [e |-> 2, t |-> 0]]}
Live(st) == {k \in 1..Len(st.nodes) : ~st.nodes[k].dead}
Ops(c, st, k) ==
  IF k = 0 THEN {[t |-> "new"]}
  ELSE {[t |-> "train", j |-> j, c |-> x] : j \in Live(st), x \in 1..c.n}
       \cup (IF Len(st.nodes) < 3 THEN {[t |-> "fork", j |-> j] : j \in {j \in Live(st) : Training(c, st.nodes[j]) \/ c.x.e > 0}} ELSE {})
       \cup {[t |-> "exec", j |-> j, c |-> x] : j \in {j \in Live(st) : c.x.e > 0 /\ ~Training(c, st.nodes[j])}, x \in 1..c.n}
       \cup UNION {{[t |-> "join", j |-> j, k |-> x] : x \in Joinable(c, st, j)} : j \in Live(st)}
       \cup {[t |-> "stop", j |-> j] : j \in Live(st) \cap {1}}
Init == cfg \in Cfgs /\ s = Start(cfg) /\ d = 0
\* each chunk at most twice per phase, to keep the state space small
Next == /\ d < (IF Big THEN 8 ELSE 7) + 2 * (cfg.phases - 1)
        /\ \E op \in Ops(cfg, s, d) :
            LET r == Step(cfg, s, op)
            IN /\ \A p \in 1..cfg.phases : \A c \in 1..cfg.n : r.s.nodes # <<>> => Total(cfg, r.s, p, c) <= 1
               /\ \A c \in 1..cfg.n : r.s.nodes # <<>> => Collected(cfg, r.s, c) <= 3
               /\ s' = r.s
               /\ d' = d + 1
               /\ UNCHANGED cfg
               /\ Assert(StepInv(cfg, s, op, r), <<"StepInv", s, op, r>>)
               /\ PrintT("@T" \o ToJson([c |-> cfg, f |-> s, o |-> op, r |-> r.out, t |-> r.s]))
View == <<cfg, s>>
=============================================================================
