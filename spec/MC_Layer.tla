------------------------------ MODULE MC_Layer ------------------------------
EXTENDS Layer, Json, IOUtils
VARIABLES cfg, s, d
Mode == IOEnv.MODE            \* "run" | "dtype"
Big == IOEnv.TIER = "thorough"
B == <<"f4", "f8">>
Nd(in, out, so, n, done, inv, oi, dt, sup) ==
  [in |-> in, out |-> out, so |-> so, n |-> n, done |-> done, inv |-> inv, oi |-> oi, dt |-> dt, sup |-> sup]
A == Nd(1, 2, 0, 0, FALSE, TRUE, FALSE, "", B)
I == Nd(2, 1, 0, 0, FALSE, TRUE, TRUE, "", B)
Lz == Nd(2, 0, 0, 0, FALSE, FALSE, FALSE, "", B)
T1 == Nd(2, 1, 0, 1, FALSE, TRUE, FALSE, "", B)
T1s == Nd(1, 0, 2, 1, FALSE, TRUE, FALSE, "", B)
T2 == Nd(1, 2, 0, 2, FALSE, TRUE, TRUE, "", B)
T2s == Nd(2, 0, 3, 2, FALSE, FALSE, FALSE, "", B)
Dn == Nd(1, 1, 0, 2, TRUE, TRUE, FALSE, "", B)
Un == Nd(0, 1, 0, 0, FALSE, TRUE, FALSE, "", B)
F4 == Nd(1, 1, 0, 1, FALSE, TRUE, FALSE, "f4", B)
F8 == Nd(1, 1, 0, 0, FALSE, TRUE, FALSE, "f8", B)
O8 == Nd(1, 2, 0, 0, FALSE, TRUE, FALSE, "", <<"f8">>)
Seqs2(S) == {<<p, q>> : p \in S, q \in S}
Kinds == {A, I, Lz, T1, T1s, T2, T2s, Dn}
Run == {<<p>> : p \in Kinds \cup {Un}} \cup Seqs2(Kinds) \cup {<<A, Un>>}
       \cup (IF Big THEN {<<p, q, r>> : p \in Kinds, q \in Kinds, r \in Kinds}
             ELSE {<<A, T1, T2s>>, <<T2, Lz, T1s>>, <<Dn, T2, I>>, <<I, A, I>>})
Dt == {<<p>> : p \in {A, F4, F8, O8}} \cup Seqs2({T1, F4, F8, O8})
C(kind, m, dt, nodes) == [kind |-> kind, m |-> m, dt |-> dt, nodes |-> nodes]
Cfgs == CASE Mode = "run" -> {C(k, 0, "", q) : k \in {"layer", "same"}, q \in Run}
                             \cup {C("clone", m, "", <<p>>) : m \in 1..3, p \in Kinds \cup {Un}}
          [] Mode = "dtype" -> {C(k, 0, dt, q) : k \in {"layer", "same"}, q \in Dt, dt \in {"", "f4", "f8"}}
                             \cup {C("clone", 2, dt, <<p>>) : p \in {A, F4, F8, O8}, dt \in {"", "f4", "f8"}}
\* distinct values in all cells
X(w, n, dt) == [x |-> [r \in 1..n |-> [c \in 1..w |-> 10 * r + c]], dt |-> dt, w |-> w]
Ops(c, st, k) ==
  IF st.bad \/ (k > 0 /\ ~st.made) THEN {}
  ELSE IF k = 0 THEN {[t |-> "new"]}
  ELSE LET w == Idim(c) IN
  CASE Mode = "run" ->
         {[t |-> "train", d |-> X(w, 2, "f8"), a |-> 1], [t |-> "stop", a |-> 2], [t |-> "train", d |-> X(w + 1, 2, "f8"), a |-> 0],
          [t |-> "execute", d |-> X(w, 3, "f8"), a |-> 0], [t |-> "execute", d |-> X(w, 1, "f8"), a |-> 3],
          [t |-> "execute", d |-> X(w + 1, 1, "f8"), a |-> 0],
          [t |-> "inverse", d |-> X(IF st.od = 0 THEN 1 ELSE st.od, 2, "f8"), a |-> 1]}
    [] Mode = "dtype" ->
         {[t |-> "train", d |-> X(w, 1, dt), a |-> 0] : dt \in {"f4", "f8", "i4"}}
         \cup {[t |-> "execute", d |-> X(w, 1, dt), a |-> 0] : dt \in {"f4", "f8", "i4"}}
         \cup {[t |-> "setdt", dt |-> dt] : dt \in {"", "f4", "f8", "i4"}}
Init == cfg \in Cfgs /\ s = Start(cfg) /\ d = 0
Next == /\ d < (IF Big THEN 8 ELSE 6)
        /\ \E op \in Ops(cfg, s, d) :
            LET r == Step(cfg, s, op)
            IN /\ s' = r.s
               /\ d' = d + 1
               /\ UNCHANGED cfg
               /\ Assert(StepInv(cfg, s, op, r), <<"StepInv", s, op, r>>)
               /\ PrintT("@T" \o ToJson([c |-> cfg, f |-> s, o |-> op, r |-> r.out, t |-> r.s]))
View == <<cfg, s>>
=============================================================================
