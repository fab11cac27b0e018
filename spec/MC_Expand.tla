------------------------------ MODULE MC_Expand ------------------------------
EXTENDS Expand, Json, IOUtils
VARIABLES cfg, s, d
Big == IOEnv.TIER = "thorough"
C0 == [kind |-> "poly", deg |-> 1, fam |-> "standard_poly", with0 |-> TRUE, check |-> FALSE, funcs |-> <<>>, i |-> 0, dt |-> "",
       centers |-> <<>>, sizes |-> <<>>, covs |-> <<>>, invs |-> <<>>, one |-> FALSE]
Fams == {"standard_poly", "legendre_poly", "legendre_rational", "chebyshev_poly", "own_box", "own_neg"}
Cen == <<<<1, 2>>, <<0, -1>>, <<3, 3>>>>
R(n, sizes, covs, invs, one) == [C0 EXCEPT !.kind = "rbf", !.fam = "", !.centers = SubSeq(Cen, 1, n), !.sizes = sizes, !.covs = covs, !.invs = invs, !.one = one]
A == <<<<2, 0>>, <<0, 2>>>>
Ai == [m |-> <<<<1, 0>>, <<0, 1>>>>, d |-> 2]
B == <<<<2, 1>>, <<1, 2>>>>
Bi == [m |-> <<<<2, -1>>, <<-1, 2>>>>, d |-> 3]
I3 == <<<<1, 0, 0>>, <<0, 1, 0>>, <<0, 0, 1>>>>
Cfgs == {[C0 EXCEPT !.deg = g, !.i = i, !.dt = dt] : g \in 1..(IF Big THEN 5 ELSE 4), i \in {0, 1, 2, 3}, dt \in {"", "i8"}}
        \cup {[C0 EXCEPT !.kind = "quad", !.i = i, !.dt = dt] : i \in {0, 2}, dt \in {"", "f4"}}
        \cup {[C0 EXCEPT !.kind = k, !.deg = g, !.fam = f, !.with0 = w, !.check = ch, !.i = i] :
                k \in {"rec", "norm"}, g \in 0..(IF Big THEN 4 ELSE 3), f \in Fams, w \in BOOLEAN, ch \in BOOLEAN, i \in {0} \cup IF Big THEN {2} ELSE {}}
        \cup {[C0 EXCEPT !.kind = "general", !.funcs = f, !.i = i] : i \in {0, 2},
                f \in {<<"id">>, <<"id", "sq">>, <<"norm", "id", "one">>, <<"ends", "none", "sq", "ends">>, <<"one", "norm">>}}
        \cup {R(n, z, <<>>, <<>>, one) : n \in {1, 3}, z \in {<<2>>, <<2, 1, 3>>}, one \in BOOLEAN}
        \cup {R(3, <<>>, <<B, A, B>>, <<Bi, Ai, Bi>>, FALSE), R(3, <<>>, <<B>>, <<Bi>>, TRUE), R(1, <<>>, <<A>>, <<Ai>>, TRUE), R(1, <<>>, <<A>>, <<Ai>>, FALSE),
              R(2, <<>>, <<A>>, <<Ai>>, FALSE), R(2, <<>>, <<I3>>, <<[m |-> I3, d |-> 1]>>, TRUE)}
Xs(n, w, z) == [x |-> [t \in 1..n |-> [c \in 1..w |-> ((t * (c + z) + c * c * z + z) % 5) - (IF z = 2 THEN 1 ELSE 0)]], cols |-> w,
                dt |-> IF z = 0 THEN "f4" ELSE IF z = 1 THEN "i8" ELSE "f8"]
Rec(c) == c.kind \in {"rec", "norm"}
Small(x) == [x EXCEPT !.x = [t \in 1..Len(x.x) |-> [k \in 1..x.cols |-> x.x[t][k] % 3]]]
Data(c) == {x \in {Xs(n, w, z) : n \in {1, 2}, w \in {1, 2} \cup (IF c.kind = "norm" THEN {} ELSE {3}), z \in 0..2} : (Rec(c) => x.dt = "f8") /\ (c.kind \in {"general", "rbf"} => x.dt # "i8")}
           \cup (IF Rec(c) THEN {Small(Xs(n, w, 3)) : n \in {1, 3}, w \in {2} \cup (IF c.kind = "norm" THEN {} ELSE {3})} ELSE {})
Scale(c, st, x) ==
  [t \in 1..Len(x.x) |->
     IF Rec(c) THEN IF c.kind = "norm" /\ Len(st.lo) # x.cols THEN 1
                    ELSE Prod([k \in 1..x.cols |-> Den(c.fam, Normal(c, st, x.x[t])[k][1], Normal(c, st, x.x[t])[k][2], c.deg)])
     ELSE IF c.kind = "rbf" THEN 6 ELSE 1]
Pole(c, st, x) == (c.fam = "legendre_rational") /\ ~(c.kind = "norm" /\ Len(st.lo) # x.cols)
                  /\ \E t \in 1..Len(x.x) : \E k \in 1..x.cols : LET f == Normal(c, st, x.x[t])[k] IN f[1] + f[2] <= 0
Ops(c, st, k) ==
  IF k = 0 THEN {[t |-> "new"]}
  ELSE {[t |-> "execute", x |-> x, scale |-> Scale(c, st, x)] : x \in {x \in Data(c) : ~Pole(c, st, x)}}
       \cup (IF c.kind = "norm" THEN {[t |-> "train", x |-> x] : x \in Data(c)} \cup {[t |-> "stop"]} ELSE {})
       \cup {[t |-> "setin", n |-> 2]} \cup {[t |-> "setout", n |-> n] : n \in {2, 5}}
       \cup {[t |-> "inverse", x |-> Xs(1, 2, 2)]}
       \cup (IF k = 1 /\ c.kind = "quad" THEN {[t |-> "count", n |-> n, d |-> g] : n \in 1..4, g \in 1..4} ELSE {})
Init == cfg \in Cfgs /\ s = Start(cfg) /\ d = 0
Next == /\ d < (IF cfg.kind = "norm" THEN 4 ELSE 3) + IF Big THEN 1 ELSE 0
        /\ ~s.bad
        /\ \E op \in Ops(cfg, s, d) :
            LET r == Step(cfg, s, op)
            IN /\ s' = r.s
               /\ d' = d + 1
               /\ UNCHANGED cfg
               /\ Assert(StepInv(cfg, s, op, r), <<"StepInv", s, op, r>>)
               /\ PrintT("@T" \o ToJson([c |-> cfg, f |-> s, o |-> op, r |-> r.out, t |-> r.s]))
View == <<cfg, s>>
=============================================================================
