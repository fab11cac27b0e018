---------------------------- MODULE MC_NodeLife -----------------------------
(* Exhaustive exploration of NodeLife; emits every transition as JSON.       *)
EXTENDS NodeLife, Json, IOUtils
VARIABLES cfg, s

Big == IOEnv.TIER = "thorough"
Data == {[rank |-> 2, rows |-> 2, cols |-> 2, dt |-> "f8"],
         [rank |-> 2, rows |-> 1, cols |-> 3, dt |-> "f8"],
         [rank |-> 2, rows |-> 2, cols |-> 2, dt |-> "f4"],
         [rank |-> 2, rows |-> 2, cols |-> 2, dt |-> "i8"],
         [rank |-> 2, rows |-> 0, cols |-> 2, dt |-> "f8"],
         [rank |-> 1, rows |-> 2, cols |-> 1, dt |-> "f8"]}
        \cup IF Big THEN {[rank |-> 3, rows |-> 2, cols |-> 2, dt |-> "f8"],
                          [rank |-> 2, rows |-> 3, cols |-> 3, dt |-> "f4"],
                          [rank |-> 2, rows |-> 0, cols |-> 3, dt |-> "f4"]}
             ELSE {}

Cfgs == [trainable : {TRUE}, inv : BOOLEAN, n : 1..(IF Big THEN 4 ELSE 3), pd : BOOLEAN,
         supp : {<<"f4", "f8">>}]
        \cup [trainable : {TRUE}, inv : {TRUE}, n : {1}, pd : {FALSE}, supp : {<<"f8">>}]
        \cup [trainable : {FALSE}, inv : BOOLEAN, n : {1}, pd : BOOLEAN,
              supp : {<<"f4", "f8">>}]

Ops(c, st) ==
  IF ~st.made
  THEN [t : {"new"}, i : {0, 2, 3}, o : {0, 2, 3}, dt : {"", "f4", "f8", "i8"}]
  ELSE {[t |-> "train", x |-> x, fail |-> f, bad |-> b] :
            x \in Data, f \in 0..1, b \in BOOLEAN}
       \cup {[t |-> "stop", fail |-> f] : f \in 0..1}
       \cup {[t |-> "execute", x |-> x, fail |-> f] : x \in Data, f \in 0..(2 * c.n + 1)}
       \cup {[t |-> "inverse", x |-> x, fail |-> f] : x \in Data, f \in 0..2}
       \cup {[t |-> "seti", n |-> n] : n \in {2, 3}}
       \cup {[t |-> "seto", n |-> n] : n \in {2, 3}}
       \cup {[t |-> "setdt", dt |-> d] : d \in {"f4", "f8", "i8"}}

Init == cfg \in Cfgs /\ s = Start(cfg)

Next == \E op \in Ops(cfg, s) :
          LET r == Step(cfg, s, op)
          IN /\ s' = r.s
             /\ UNCHANGED cfg
             /\ Assert(StepInv(cfg, s, op, r.out, r.s), <<"StepInv", s, op, r>>)
             /\ PrintT("@T" \o ToJson([c |-> cfg, f |-> s, o |-> op, r |-> r.out, t |-> r.s]))

Inv == StateInv(cfg, s)
=============================================================================
