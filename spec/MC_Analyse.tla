----------------------------- MODULE MC_Analyse -----------------------------
EXTENDS Analyse, Json, IOUtils
VARIABLES cfg, s, d
Big == IOEnv.TIER = "thorough"
C(kind, n, gap, i, dt, lo, hi, mul) == [kind |-> kind, n |-> n, gap |-> gap, i |-> i, dt |-> dt, lo |-> lo, hi |-> hi, mul |-> mul]
Cfgs == {C("hit", n, g, 0, "", 0, 0, FALSE) : n \in 1..(IF Big THEN 3 ELSE 2), g \in 0..2}
        \cup {C("adaptive", 0, 0, 0, "", lo, hi, FALSE) : lo \in 0..3, hi \in 0..2}
        \cup {C("cutoff", 0, 0, 0, "", lo, hi, FALSE) : lo \in {0, 1, None}, hi \in {1, 2, None}}
        \cup {C(k, 0, 0, i, dt, 0, 0, m) : k \in {"noise"}, i \in {0, 2}, dt \in {"", "i4"}, m \in BOOLEAN}
        \cup {C(k, 0, 0, i, "", 0, 0, FALSE) : k \in {"eta", "hist", "file", "ident"}, i \in {0, 1}}
X(q, dt) == [x |-> [r \in 1..Len(q) |-> [c \in 1..1 |-> q[r]]], cols |-> 1, dt |-> dt]
Wide(dt) == [x |-> <<<<1, 3>>, <<2, 0>>>>, cols |-> 2, dt |-> dt]
\* chunks of every cut of every sequence of up to Most values
Most(c) == IF c.kind \in {"hit", "adaptive"} THEN (IF Big THEN 6 ELSE 5) ELSE 4
Vals(c) == IF c.kind = "hit" THEN 0..2 ELSE IF c.kind = "adaptive" THEN {1, 3} ELSE {0, 2, 3}
Seqs(c, n) == UNION {[1..m -> Vals(c)] : m \in 1..n}
\* cuts: one by one, in pairs, in one piece, two and the rest
Cut(c, st) == LET room == Most(c) - Len(st.hist) IN
              IF st.chunks = <<>> THEN {1, 2, room} ELSE IF Len(st.chunks) = 1 THEN {IF c.kind = "hit" /\ ~Big THEN room ELSE Len(st.chunks[1]), room} ELSE {Len(st.chunks[Len(st.chunks)])}
Ops(c, st, k) ==
  IF k = 0 THEN {[t |-> "new"]}
  ELSE LET room == Most(c) - Len(st.hist)
           more == Trainable(c) /\ st.train \in {"new", "on"} /\ (st.hist = <<>> \/ st.i = 1) IN
       (IF more THEN {[t |-> "train", x |-> X(q, "f8")] : q \in {z \in Seqs(c, Most(c)) : Len(z) <= room /\ Len(z) \in Cut(c, st)}} ELSE {})
       \cup (IF room = Most(c) THEN {[t |-> "train", x |-> Wide("f8")], [t |-> "train", x |-> X(<<>>, "f8")]} ELSE {})
       \cup (IF Trainable(c) /\ room \in {0, 2} THEN {[t |-> "stop"], [t |-> "train", x |-> X(<<1>>, "f8")]} ELSE {})
       \cup (IF c.kind = "hit" /\ room < 3 THEN {[t |-> "maxima"], [t |-> "minima"]} ELSE {})
       \cup (IF c.kind = "eta" THEN {[t |-> "eta"]} ELSE {})
       \cup (IF c.kind # "hit" /\ room \in {0, 2, Most(c)} THEN {[t |-> "execute", x |-> X(<<0, 1, 2, 3>>, "f8")], [t |-> "execute", x |-> Wide("f8")]} ELSE {})
Init == cfg \in Cfgs /\ s = Start(cfg) /\ d = 0
Next == /\ d < 7 /\ ~s.bad
        /\ \E op \in Ops(cfg, s, d) :
            LET r == Step(cfg, s, op)
            IN /\ s' = r.s
               /\ d' = 1
               /\ UNCHANGED cfg
               /\ Assert(StepInv(cfg, s, op, r), <<"StepInv", s, op, r>>)
               /\ PrintT("@T" \o ToJson([c |-> cfg, f |-> s, o |-> op, r |-> r.out, t |-> r.s]))
View == <<cfg, s>>
=============================================================================
