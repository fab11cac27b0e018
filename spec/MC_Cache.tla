------------------------------ MODULE MC_Cache ------------------------------
EXTENDS Cache, Json, IOUtils
VARIABLES cfg, s, d
Mode == IOEnv.MODE            \* "select" | "state"
Big == IOEnv.TIER = "thorough"
C(cls, kind, p, w) == [cls |-> cls, kind |-> kind, p |-> p, w |-> w]
Cfgs == IF Mode = "select" THEN {[nodes |-> <<C("A", "plain", 2, 1), C("B", "plain", 2, 1)>>], [nodes |-> <<C("A", "plain", 2, 1), C("A", "plain", 2, 1)>>]}
        ELSE {[nodes |-> <<C("A", "train", 2, 0)>>], [nodes |-> <<C("A", "train", 2, 1)>>], [nodes |-> <<C("A", "online", 2, 0)>>], [nodes |-> <<C("A", "plain", 2, 0)>>]}
X(v, w, dt) == [v |-> v, w |-> w, dt |-> dt]
A(t, dir, all, cs, is) == [t |-> t, dir |-> dir, all |-> all, cs |-> cs, is |-> is]
Sel(t) == {A(t, dir, TRUE, <<>>, <<>>) : dir \in {"", "d1"}}
          \cup {A(t, "d1", FALSE, <<"A">>, <<>>), A(t, "", FALSE, <<>>, <<2>>), A(t, "d2", FALSE, <<"B">>, <<1>>), A(t, "d1", FALSE, <<>>, <<>>)}
Ex(i, x, a) == [t |-> "execute", i |-> i, x |-> x, a |-> a]
Ops(c, st) ==
  IF Mode = "select" THEN
    Sel("activate") \cup {[t |-> "deactivate"], [t |-> "setdir", dir |-> ""], [t |-> "setdir", dir |-> "d2"],
     [t |-> "setinst", i |-> 1, on |-> TRUE], [t |-> "setinst", i |-> 1, on |-> FALSE], Ex(1, X(3, 1, "f8"), 0), Ex(2, X(3, 1, "f8"), 0),
     A("enter", "d1", FALSE, <<"A">>, <<>>), A("enter", "", TRUE, <<>>, <<>>)} \cup (IF st.open = <<>> THEN {} ELSE {[t |-> "leave"]}) \cup (IF st.dir = "" THEN {} ELSE {[t |-> "generic"]})
  ELSE {A("activate", "d1", TRUE, <<>>, <<>>), [t |-> "deactivate"], Ex(1, X(3, 1, "f8"), 0), Ex(1, X(3, 1, "f4"), 0), Ex(1, X(3, 2, "f8"), 0),
        Ex(1, X(3, 1, "f8"), 5), Ex(1, X(3, 1, "f8"), 99), [t |-> "train", i |-> 1, x |-> X(4, 1, "f8")], [t |-> "stop", i |-> 1],
        [t |-> "setp", i |-> 1, v |-> 7], [t |-> "setp", i |-> 1, v |-> 2]}
Init == cfg \in Cfgs /\ s = Start(cfg) /\ d = 0
Next == /\ d < (IF Big THEN 5 ELSE 4)
        /\ \E op \in Ops(cfg, s) :
            LET r == Step(cfg, s, op)
            IN /\ s' = r.s
               /\ d' = d + 1
               /\ UNCHANGED cfg
               /\ Assert(StepInv(cfg, s, op, r), <<"StepInv", s, op, r>>)
               /\ PrintT("@T" \o ToJson([c |-> cfg, f |-> s, o |-> op, r |-> r.out, t |-> r.s]))
View == <<cfg, s>>
=============================================================================
