----------------------------- MODULE MC_ParFlow -----------------------------
EXTENDS ParFlow, Json, IOUtils
Big == IOEnv.TIER = "thorough"
Mode == IOEnv.MODE
VARIABLES cfg, s, d
nd(k, n, p0, a) == [k |-> k, n |-> n, p0 |-> p0, args |-> a]
K == [p1 |-> nd("par", 1, 0, 0), p2 |-> nd("par", 2, 0, 0), q1 |-> nd("par", 2, 1, 0), pre |-> nd("par", 1, 1, 0),
      a1 |-> nd("par", 1, 0, 1), l1 |-> nd("loc", 1, 0, 0), l2 |-> nd("loc", 2, 0, 0), m2 |-> nd("mix", 2, 0, 0),
      nt |-> nd("nt", 1, 0, 0), col |-> nd("col", 1, 0, 0)]
Names == DOMAIN K
Two == {<<K[a], K[b]>> : a \in {"p2", "nt", "col", "l1", "m2", "a1", "pre", "q1"}, b \in {"p1", "m2", "l2", "col", "a1", "pre"}}
Three == {<<K["p1"], K["nt"], K["p2"]>>, <<K["col"], K["l1"], K["p1"]>>, <<K["p1"], K["col"], K["m2"]>>,
          <<K["l2"], K["p1"], K["pre"]>>, <<K["pre"], K["col"], K["nt"]>>}
C(ns) == [nodes |-> ns, cp |-> FALSE]
Cfgs == CASE Mode = "train" -> {C(<<K[a]>>) : a \in Names} \cup {C(q) : q \in Two \cup Three}
          [] Mode = "cp" -> {[nodes |-> q, cp |-> TRUE] : q \in {<<K[a]>> : a \in {"p2", "l1", "nt"}}
                               \cup {<<K["p1"], K["l2"]>>, <<K["nt"], K["p2"]>>, <<K["pre"], K["m2"]>>, <<K["col"], K["p1"], K["p2"]>>}}
          [] Mode = "exec" -> {C(q) : q \in {<<K["nt"]>>, <<K["col"]>>, <<K["pre"]>>, <<K["nt"], K["col"]>>, <<K["col"], K["col"]>>,
                                              <<K["pre"], K["col"], K["nt"]>>, <<K["col"], K["pre"], K["col"]>>}}
Good(c, i, a, b) == IF ~Trainable(c.nodes[i]) THEN [k |-> "none", chunks |-> <<>>]
                    ELSE [k |-> IF b /\ c.nodes[i].n = 1 THEN "iter" ELSE "list", chunks |-> a]
Chunks == IF Big THEN {<<<<1>>>>, <<<<1>>, <<2, 3>>, <<4>>>>} ELSE {<<<<1>>>>, <<<<1>>, <<2, 3>>>>}
Datas(c, B) == {[k |-> "list", its |-> [i \in 1..Len(c.nodes) |-> Good(c, i, a, b)]] : a \in Chunks, b \in B}
Odd(c) == {[k |-> "list", its |-> [i \in 1..Len(c.nodes) |-> Good(c, i, <<<<1>>>>, FALSE)] \o <<[k |-> "none", chunks |-> <<>>]>>],
           [k |-> "notlist"]}
          \cup {[k |-> "list", its |-> [i \in 1..Len(c.nodes) |-> IF i = j THEN x ELSE Good(c, i, <<<<1>>, <<2>>>>, FALSE)]] :
                  j \in 1..Len(c.nodes), x \in {[k |-> "list", chunks |-> <<>>], [k |-> "iter", chunks |-> <<<<5>>, <<6>>>>],
                                                [k |-> "nonit", chunks |-> <<>>], [k |-> "none", chunks |-> <<>>]}}
          \cup (IF \A i \in 1..Len(c.nodes) : c.nodes[i].args = 0 THEN {[k |-> "array", chunks |-> <<<<1, 2>>>>]} ELSE {})
Cps(c) == IF ~c.cp THEN {[k |-> "one", f |-> "none"]}
          ELSE {[k |-> "one", f |-> f] : f \in {"none", "nil", "dict"}}
               \cup {[k |-> "list", fs |-> [i \in 1..Len(c.nodes) |-> IF i = j THEN "dict" ELSE "none"]] : j \in 1..Len(c.nodes)}
               \cup {[k |-> "list", fs |-> <<"nil", "nil", "nil", "nil">>]}
Cp1(c) == {[k |-> "one", f |-> IF c.cp THEN "dict" ELSE "none"]}
XData == {[k |-> "array", chunks |-> <<<<1, 2>>>>], [k |-> "list", chunks |-> <<<<1>>, <<2, 3>>, <<4>>>>],
          [k |-> "iter", chunks |-> <<<<5>>, <<6>>>>], [k |-> "list", chunks |-> <<>>]}
Schs == {"seq", "shuf", "pick", "list"}
DX == [k |-> "list", chunks |-> <<<<7>>, <<8>>>>]
D1(c) == [k |-> "list", its |-> [i \in 1..Len(c.nodes) |-> Good(c, i, <<<<1>>, <<2, 3>>, <<4>>>>, FALSE)]]
Done(st) == \A i \in 1..Len(st.ns) : ~st.ns[i].training
Tr(x, q, f, z) == [t |-> "train", data |-> x, cps |-> q, fail |-> f, sch |-> z]
Su(x, q) == [t |-> "setup", data |-> x, cps |-> q]
Ex(x, n, f, z) == [t |-> "execute", data |-> x, nr |-> n, fail |-> f, sch |-> z]
Ops(c, st, depth) ==
  {[t |-> "get"]}
  \cup (IF st.mode # "idle" /\ st.avail = <<>> THEN {[t |-> "use", ord |-> o] : o \in {0, 1, 2}} ELSE {})
  \cup (IF Mode = "exec"
        THEN {Ex(x, n, f, z) : x \in XData, n \in {-1, 0}, f \in IF depth = 0 THEN {0, 2} ELSE {0}, z \in IF depth = 0 THEN {"seq", "shuf", "pick", "plain"} ELSE {"shuf"}}
             \cup (IF st.mode = "idle" THEN {[t |-> "setupx", data |-> x, nr |-> n] : x \in XData, n \in {-1, 0}} ELSE {})
        ELSE IF st.mode = "idle"
        THEN {Tr(x, q, f, z) : x \in Datas(c, IF depth = 0 THEN BOOLEAN ELSE {FALSE}), q \in Cps(c), f \in {0}, z \in IF depth = 0 THEN Schs ELSE {"shuf"}}
             \cup {Tr(D1(c), q, f, "seq") : f \in 1..4, q \in Cp1(c)}
             \cup {Su(x, q) : x \in Datas(c, IF depth = 0 THEN BOOLEAN ELSE {FALSE}), q \in Cp1(c)}
             \cup (IF depth = 0 THEN {Tr(x, q, 0, z) : x \in Odd(c), q \in Cp1(c), z \in {"seq", "list"}}
                                     \cup {Su(x, q) : x \in Odd(c), q \in Cp1(c)} ELSE {})
             \cup (IF Done(st) THEN {Ex(DX, -1, 0, "pick"), [t |-> "setupx", data |-> DX, nr |-> 0]} ELSE {})
        ELSE IF st.mode = "train"
        THEN {Tr(D1(c), q, 0, "seq") : q \in Cp1(c)} \cup {Su(D1(c), q) : q \in Cp1(c)}
             \cup {Ex(DX, -1, 0, "seq"), Ex(DX, -1, 0, "plain"), [t |-> "setupx", data |-> DX, nr |-> 0]}
        ELSE {})
Sane(c, op) == op.t = "execute" /\ op.fail > 0 => op.sch # "plain"
MaxDepth == IF Big THEN 6 ELSE 4
Limit(st) == \A i \in 1..Len(st.ns) : \A p \in DOMAIN st.ns[i].seen : Len(st.ns[i].seen[p]) <= (IF Mode = "exec" /\ ~Big THEN 1 ELSE 4)
Init == cfg \in Cfgs /\ s = Start(cfg) /\ d = 0
Next == /\ d < MaxDepth /\ Limit(s)
        /\ \E op \in Ops(cfg, s, d) :
            /\ Sane(cfg, op)
            /\ LET r == Step(cfg, s, op)
               IN /\ s' = r.s
                  /\ d' = d + 1
                  /\ UNCHANGED cfg
                  /\ Assert(StepInv(cfg, s, op, r), <<"StepInv", s, op, r>>)
                  /\ PrintT("@T" \o ToJson([c |-> cfg, f |-> s, o |-> op, r |-> r.out, t |-> r.s]))
View == <<cfg, s>>
=============================================================================
