------------------------------ MODULE MC_Switch -----------------------------
EXTENDS Switch, Json, IOUtils
VARIABLES cfg, s, d
Mode == IOEnv.MODE            \* "lists" | "chan" | "bi"
Big == IOEnv.TIER = "thorough"
C(kind, din, con, och, ich) == [kind |-> kind, din |-> din, con |-> con, och |-> och, ich |-> ich]
Lists(n, S) == UNION {[1..k -> S] : k \in 0..n}
Cfgs == CASE Mode = "lists" -> {C(k, n, q, 1, 1) : k \in {"plain", "mean"}, n \in 1..(IF Big THEN 4 ELSE 3),
                                                   q \in Lists(IF Big THEN 4 ELSE 3, -1..(IF Big THEN 4 ELSE 3))}
          [] Mode = "chan" -> {C(k, n, q, o, i) : k \in {"chan", "meanchan"}, n \in {2, 4}, q \in Lists(IF Big THEN 6 ELSE 4, 0..1) \cup Lists(4, {0, 3}),
                                                  o \in 1..2, i \in 1..2}
          [] Mode = "bi" -> {C("bi", n, q, 1, 1) : n \in 1..3, q \in Lists(3, 0..2)}
                            \cup {C("bichan", 2, q, 2, 1) : q \in Lists(4, 0..1)}
X(w, n, dt) == [x |-> [r \in 1..n |-> [c \in 1..w |-> 60 * (10 * r + c)]], dt |-> dt, w |-> w]
M(k, a, w) == [k |-> k, a |-> a, w |-> w, x |-> X(w, 2, "f8").x]
Msgs(c) == {<<M("a", TRUE, c.din), M("b", FALSE, 1)>>, <<M("a", TRUE, NC(c)), M("b", TRUE, c.din + NC(c))>>}
Ops(c, st, k) ==
  IF k > 0 /\ ~st.made THEN {}
  ELSE IF k = 0 THEN {[t |-> "new"]}
  ELSE CASE Mode = "lists" -> {[t |-> "execute", d |-> X(w, 2, dt)] : w \in {c.din, c.din + 1}, dt \in {"f8", "i4"}}
                          \cup {[t |-> "inverse", d |-> X(w, 2, "f8")] : w \in {NC(c), NC(c) + 1}}
        [] Mode = "chan" -> {[t |-> "outin", c |-> j] : j \in 0..(NC(c) \div c.och - 1)}
                         \cup {[t |-> "outnode", c |-> j, d |-> X(c.din, 2, "f8")] : j \in 0..(NC(c) \div c.och - 1)}
                         \cup {[t |-> "ins", cs |-> <<j>>] : j \in 0..(NC(c) \div c.och - 1)}
                         \cup {[t |-> "ins", cs |-> [q \in 1..(NC(c) \div c.och) |-> NC(c) \div c.och - q]]}
                         \cup {[t |-> "execute", d |-> X(c.din, 1, "f4")], [t |-> "inverse", d |-> X(NC(c), 1, "f4")]}
        [] Mode = "bi" -> {[t |-> "bexec", none |-> n, d |-> X(c.din, 2, "f4"), m |-> m] : n \in BOOLEAN, m \in Msgs(c)}
                       \cup {[t |-> "binverse", none |-> n, d |-> X(NC(c), 2, "f8"), m |-> m] : n \in BOOLEAN, m \in Msgs(c)}
                       \cup {[t |-> "execute", d |-> X(c.din, 1, "f8")], [t |-> "inverse", d |-> X(NC(c), 1, "f8")]}
Init == cfg \in Cfgs /\ s = Start(cfg) /\ d = 0
Next == /\ d < 3
        /\ \E op \in Ops(cfg, s, d) :
            LET r == Step(cfg, s, op)
            IN /\ s' = r.s
               /\ d' = d + 1
               /\ UNCHANGED cfg
               /\ Assert(StepInv(cfg, s, op, r), <<"StepInv", s, op, r>>)
               /\ PrintT("@T" \o ToJson([c |-> cfg, f |-> s, o |-> op, r |-> r.out, t |-> r.s]))
View == <<cfg, s>>
=============================================================================
