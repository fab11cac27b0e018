---------------------------- MODULE MC_FlowNode -----------------------------
EXTENDS FlowNode, Json, IOUtils
VARIABLES cfg, s, d
Mode == IOEnv.MODE            \* "run" | "dims" | "dtype"
Big == IOEnv.TIER = "thorough"
B == <<"f4", "f8">>
Nd(g, in, out, so, n, pre, inv, dt, sup) ==
  [g |-> g, in |-> in, out |-> out, so |-> so, n |-> n, pre |-> pre, inv |-> inv, dt |-> dt, sup |-> sup]
N0 == Nd("", 0, 0, 0, 0, 0, TRUE, "", B)
N2 == Nd("", 2, 1, 0, 0, 0, TRUE, "", B)
No3 == Nd("", 0, 3, 0, 0, 0, TRUE, "", B)
P0 == Nd("pd", 0, 0, 0, 0, 0, TRUE, "", B)
P2 == Nd("pd", 2, 2, 0, 1, 0, TRUE, "", B)
E0 == Nd("ex", 0, 0, 0, 0, 0, FALSE, "", B)
E2 == Nd("ex", 2, 4, 0, 0, 0, TRUE, "", B)
T1 == Nd("", 0, 0, 1, 1, 0, TRUE, "", B)
T2 == Nd("", 0, 2, 0, 2, 0, TRUE, "", B)
T22 == Nd("", 2, 0, 0, 2, 0, FALSE, "", B)
Q1 == Nd("", 2, 2, 0, 2, 1, TRUE, "", B)
Q2 == Nd("", 2, 2, 0, 1, 1, TRUE, "", B)
F4 == Nd("pd", 0, 0, 0, 1, 0, TRUE, "f4", B)
F8 == Nd("pd", 0, 0, 0, 0, 0, TRUE, "f8", B)
O8 == Nd("pd", 0, 0, 0, 0, 0, TRUE, "", <<"f8">>)
Seqs2(S) == {<<p, q>> : p \in S, q \in S}
Seqs3(S) == {<<p, q, r>> : p \in S, q \in S, r \in S}
RunK == {N0, N2, T1, T2, T22, Q1, Q2}
DimK == {N0, No3, N2, P0, P2, E0, E2, T1}
C(i, o, t, nodes) == [in |-> i, out |-> o, dt |-> t, nodes |-> nodes]
Cfgs == CASE Mode = "run" -> {C(0, 0, "", q) : q \in {<<p>> : p \in RunK} \cup Seqs2(RunK)
                                 \cup (IF Big THEN Seqs3(RunK) ELSE {<<T1, P0, T2>>, <<N0, T2, T1>>, <<P2, Q1, P2>>, <<T1, T1, T1>>})}
          [] Mode = "dims" -> {C(i, o, "", q) : i \in {0, 2}, o \in {0, 2}, q \in {<<p>> : p \in DimK} \cup Seqs2(DimK)}
                              \cup {C(0, 0, "", q) : q \in IF Big THEN Seqs3(DimK) ELSE Seqs3({P0, E0, N0, T1})}
          [] Mode = "dtype" -> {C(0, 0, t, q) : t \in {"", "f4", "f8"}, q \in {<<p>> : p \in {P0, F4, F8, O8}} \cup Seqs2({P0, F4, F8, O8})}
X(w, n, dt) == [x |-> [r \in 1..n |-> [c \in 1..w |-> 10 * r + c]], dt |-> dt, w |-> w]
Tr(d2, a) == [t |-> "train", d |-> d2, a |-> a]
Ex(d2) == [t |-> "execute", d |-> d2]
Ops(c, st, k) ==
  IF st.bad \/ (k > 0 /\ ~st.made) THEN {}
  ELSE IF k = 0 THEN {[t |-> "new"]}
  ELSE LET w == IF st.in = 0 THEN 2 ELSE st.in IN
  CASE Mode = "run" -> {Tr(X(w, 2, "f8"), 1), Tr(X(w, 1, "f8"), 0), [t |-> "stop", a |-> 2], Ex(X(w, 2, "f8")),
                        [t |-> "inverse", d |-> X(IF st.od = 0 THEN 2 ELSE st.od, 2, "f8")], [t |-> "copy"]}
                       \cup (IF st.in # 0 THEN {Ex(X(w + 1, 1, "f8"))} ELSE {})
    [] Mode = "dims" -> {Tr(X(w, 1, "f8"), 0), [t |-> "stop", a |-> 0], Ex(X(w, 1, "f8")), Ex(X(3, 1, "f8")), [t |-> "setin", n |-> 2],
                         [t |-> "setout", n |-> 2], [t |-> "setout", n |-> 4], [t |-> "badcopy"]}
    [] Mode = "dtype" -> {Tr(X(w, 1, dt), 0) : dt \in {"f4", "f8", "i4"}} \cup {Ex(X(w, 1, dt)) : dt \in {"f4", "f8", "i4"}}
                         \cup {[t |-> "setdt", dt |-> dt] : dt \in {"f4", "f8", "i4"}}
Init == cfg \in Cfgs /\ s = Start(cfg) /\ d = 0
Next == /\ d < (IF Big THEN 9 ELSE IF Mode = "run" THEN 7 ELSE 4)
        /\ \E op \in Ops(cfg, s, d) :
            LET r == Step(cfg, s, op)
            IN /\ s' = r.s
               /\ d' = d + 1
               /\ UNCHANGED cfg
               /\ Assert(StepInv(cfg, s, op, r), <<"StepInv", s, op, r>>)
               /\ PrintT("@T" \o ToJson([c |-> cfg, f |-> s, o |-> op, r |-> r.out, t |-> r.s]))
View == <<cfg, s>>
=============================================================================
