------------------------------- MODULE MC_Cov -------------------------------
EXTENDS Cov, Json, IOUtils
VARIABLES cfg, s, d
Big == IOEnv.TIER = "thorough"
M(k) == [i \in 1..3 |-> [j \in 1..3 |-> 64 * ((i * i * 3 + j * k + 5 * i * j * k) % 7)]]
C(kind, bias, dt, lag, covs) == [kind |-> kind, bias |-> bias, dt |-> dt, lag |-> lag, covs |-> covs]
Cfgs == {C("cov", b, dt, 0, <<>>) : b \in BOOLEAN, dt \in {"", "f4", "f8"}}
        \cup {C("delay", b, dt, l, <<>>) : b \in BOOLEAN, dt \in {"", "f4"}, l \in 0..3}
        \cup {C("cross", b, dt, 0, <<>>) : b \in BOOLEAN, dt \in {"", "f4"}}
        \cup {C("vart", TRUE, dt, 0, <<>>) : dt \in {"", "f8"}}
        \cup {C("multi", TRUE, "", 0, [k \in 1..n |-> M(k)]) : n \in 1..2}
X(n, w, z) == [t \in 1..n |-> [c \in 1..w |-> (t * t * 2 + c * 3 + t * c * z + z) % 10]]
U(x, dt) == [t |-> "update", x |-> x, dt |-> dt, y |-> <<>>, dt2 |-> "", dk |-> "none", inc |-> <<>>, td |-> TRUE]
As == {<<>>, <<<<1, 2>>, <<0, 3>>>>}
F(center, a) == [t |-> "fix", center |-> center, A |-> a]
Ops(c, st, k) ==
  IF k = 0 THEN {[t |-> "new"]}
  ELSE CASE c.kind = "cov" -> {U(X(n, 2, z), dt) : n \in {1, 2, 4}, z \in 1..2, dt \in {"f4", "f8"}} \cup {F(b, <<>>) : b \in BOOLEAN}
         [] c.kind = "delay" -> {U(X(n, 2, z), dt) : n \in {1, 2, 4, 5}, z \in 1..2, dt \in {"f8"}} \cup {F(TRUE, a) : a \in As}
         [] c.kind = "cross" -> {[U(X(n, 2, z), dt) EXCEPT !.y = X(m, 3, z + 1), !.dt2 = dt2] :
                                    n \in {1, 3}, m \in {1, 3}, z \in 1..2, dt \in {"f4", "f8"}, dt2 \in {"f4", "f8"}} \cup {F(TRUE, <<>>)}
         [] c.kind = "vart" ->
              {[U(X(n, 2, n), "f8") EXCEPT !.td = td] : n \in {1, 3}, td \in BOOLEAN}
              \cup {[U(X(n, 2, 1), "f8") EXCEPT !.td = td, !.dk = "const", !.inc = <<i>>] : n \in {1, 2}, td \in BOOLEAN, i \in {0, 2}}
              \cup {[U(X(n, 2, 2), "f8") EXCEPT !.td = td, !.dk = "seq", !.inc = [j \in 1..m |-> j]] :
                      n \in {1, 3}, td \in {TRUE} \cup IF st.last = <<>> THEN {FALSE} ELSE {}, m \in 0..4}
              \cup {[U(X(3, 2, 2), "f8") EXCEPT !.td = FALSE, !.dk = "seq", !.inc = <<2, 3>>]}
              \cup {F(b, <<>>) : b \in BOOLEAN}
         [] c.kind = "multi" -> {[t |-> "sym"], [t |-> "copy"], [t |-> "swap"]}
              \cup {[t |-> "weight", one |-> FALSE, w |-> w] : w \in {<<2>>, <<2, -1>>, <<2, 1, 1>>}} \cup {[t |-> "weight", one |-> TRUE, w |-> <<3>>]}
              \cup {[t |-> "rotate", q |-> q, i |-> i, j |-> j] : q \in 1..3, i \in 1..2, j \in {3}}
              \cup {[t |-> "permute", i |-> i, j |-> j] : i \in 1..2, j \in 2..3}
              \cup {[t |-> "transform", m |-> <<<<1, 0, 2>>, <<0, -1, 0>>, <<1, 1, 0>>>>]}
Init == cfg \in Cfgs /\ s = Start(cfg) /\ d = 0
Depth == (IF cfg.kind = "multi" THEN 5 ELSE 4) + IF Big THEN 1 ELSE 0
Next == /\ d < Depth
        /\ ~s.bad
        /\ \E op \in Ops(cfg, s, d) :
            LET r == Step(cfg, s, op)
            IN /\ s' = r.s
               /\ d' = d + 1
               /\ UNCHANGED cfg
               /\ Assert(StepInv(cfg, s, op, r), <<"StepInv", s, op, r>>)
               /\ PrintT("@T" \o ToJson([c |-> cfg, f |-> s, o |-> op, r |-> r.out, t |-> r.s]))
View == <<cfg, s>>
=============================================================================
