------------------------------- MODULE MC_Ext -------------------------------
EXTENDS Ext, Json, IOUtils
VARIABLES cfg, s
Big == IOEnv.TIER = "thorough"
\* A, B(A), D(A), E(B, D)
Par == <<<<>>, <<1>>, <<1>>, <<2, 3>>>>
Mro == <<<<1>>, <<2, 1>>, <<3, 1>>, <<4, 2, 3, 1>>>>
Owns == {<<<<1>>, <<1>>, <<>>, <<>>>>, <<<<1, 2>>, <<>>, <<1, 2>>, <<>>>>} \cup
        (IF Big THEN {<<<<1>>, <<2>>, <<1>>, <<1, 2>>>>, <<<<>>, <<1>>, <<>>, <<2>>>>} ELSE {})
Fn(items) == [style |-> "fn", items |-> items, base |-> <<>>, nodes |-> <<>>]
Nd(k, par, at) == [k |-> k, par |-> par, at |-> at]
Cl(base, nodes) == [style |-> "cls", items |-> <<>>, base |-> base, nodes |-> nodes]
Defs == {<<Fn(<<<<1, 1>>, <<2, 1>>>>), Fn(<<<<3, 2>>>>), Fn(<<<<4, 1>>, <<3, 2>>>>)>>,
         <<Fn(<<<<2, 1>>, <<1, 1>>>>), Fn(<<<<4, 1>>>>), Fn(<<<<3, 1>>, <<1, 2>>>>)>>,
         <<Cl(<<1, 2>>, <<Nd(1, 0, <<1>>), Nd(2, 1, <<>>)>>), Cl(<<1>>, <<Nd(3, 0, <<>>), Nd(4, 1, <<2>>)>>),
           Fn(<<<<1, 2>>, <<4, 2>>>>)>>} \cup
        (IF Big THEN {<<Cl(<<2>>, <<Nd(2, 0, <<1>>), Nd(4, 1, <<1>>)>>), Fn(<<<<1, 1>>, <<4, 2>>>>), Fn(<<<<3, 1>>>>)>>,
                      <<Cl(<<1>>, <<Nd(1, 0, <<2>>), Nd(3, 0, <<1>>), Nd(4, 2, <<>>)>>), Fn(<<<<2, 1>>>>), Fn(<<<<2, 1>>, <<2, 2>>>>)>>}
         ELSE {})
All == {[par |-> Par, mro |-> Mro, own |-> o, na |-> 2, def |-> d, su |-> su] :
           o \in Owns, d \in Defs, su \in {<<0, 1, 0>>, <<1, 0, 2>>}}
Pairs(c) == \/ c.own[2] = <<>> /\ c.su[3] = 0 /\ c.def[2].style = "fn"
            \/ c.own[2] # <<>> /\ c.su[3] = 2 /\ c.def[2].style = "cls"
            \/ c.own[2] # <<>> /\ c.su[3] = 0 /\ c.def[1] = Fn(<<<<1, 1>>, <<2, 1>>>>)
Cfgs == IF Big THEN All ELSE {c \in All : Pairs(c)}
E9 == {1, 2, 3, 9}
Lists == {<<1, 2>>, <<3, 1>>, <<2, 9>>} \cup
         (IF Big THEN {<<2, 1>>, <<1>>, <<2>>, <<3>>, <<1, 1>>, <<1, 2, 3>>, <<>>} ELSE {})
Ops(c, st) ==
  {[t |-> a, e |-> e] : a \in {"act", "deact"}, e \in E9}
  \cup {[t |-> a, es |-> l] : a \in {"acts", "deacts"}, l \in Lists}
  \cup {[t |-> "enter", es |-> l] : l \in IF Len(st.ctx) = 0 THEN (IF Big THEN Lists ELSE {<<1, 2>>, <<3, 1>>, <<2, 9>>, <<3>>})
                                          ELSE IF Len(st.ctx) = 1 THEN (IF Big THEN {<<2, 1>>, <<3>>} ELSE {<<2, 1>>}) ELSE {}}
  \cup {[t |-> "exit", i |-> i, x |-> x] : i \in 1..Len(st.ctx), x \in IF Big THEN BOOLEAN ELSE {Len(st.ctx) = 1}}
  \cup {[t |-> "call", e |-> e, b |-> b, e2 |-> 0] : e \in IF Big THEN E9 ELSE {1, 3}, b \in {"", "raise", "deact"}}
  \cup {[t |-> "call", e |-> e, b |-> "nest", e2 |-> e2] : e \in 1..3, e2 \in IF Big THEN 1..3 ELSE {2}}
  \cup {[t |-> "reg", e |-> e, k |-> k, a |-> 1] : e \in {1}, k \in IF Big \/ c.own[2] = <<>> THEN {3} ELSE {}}
Key(st) == <<st.held, st.act, st.ctx, IF st.reg = Start(cfg).reg THEN 0 ELSE 1>>
Init == cfg \in Cfgs /\ s = Start(cfg)
Next == \E op \in Ops(cfg, s) :
          LET r == Step(cfg, s, op)
          IN /\ s' = r.s /\ UNCHANGED cfg
             /\ Assert(StepInv(cfg, s, op, r), <<"StepInv", s, op, r>>)
             /\ PrintT("@T" \o ToJson([c |-> cfg, f |-> Key(s), o |-> op, t |-> Key(r.s),
                                       r |-> [out |-> r.out, obs |-> Obs(cfg, r.s)]]))
=============================================================================
