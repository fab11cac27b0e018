----------------------------- MODULE MC_FlowList ----------------------------
EXTENDS FlowList, Json, IOUtils
VARIABLES cfg, s
Big == IOEnv.TIER = "thorough"
MaxLen == IF Big THEN 4 ELSE 3
Cfgs == {[dims |-> <<<<2, 2>>, <<2, 3>>, <<0, 0>>>>, init |-> <<1>>]}
        \cup (IF Big THEN {[dims |-> <<<<2, 3>>, <<3, 2>>, <<0, 2>>, <<3, 0>>>>, init |-> <<>>]}
              ELSE {[dims |-> <<<<2, 3>>, <<3, 2>>>>, init |-> <<>>]})
I == -(MaxLen + 1)..(MaxLen + 1)
SI == {N, -2, -1, 0, 1, 2} \cup (IF Big THEN {-4, 3, 5} ELSE {-5, 4})
Sl == {<<a, b, N>> : a \in SI, b \in SI} \cup
      {<<a, b, c>> : a \in {N, 0, 1, -1}, b \in {N, 0, 2, -1}, c \in {1, 2, -1, -2}}
Ids(c) == 0..Len(c.dims)
One(c) == {<<k>> : k \in Ids(c)}
Vals(c) == {<<>>} \cup One(c) \cup {<<1, 2>>, <<2, 1>>}
Sl2 == {<<a, b, N>> : a \in {N, 0, 1, -1, 3}, b \in {N, 0, 1, 2, -1}} \cup
       {<<N, N, 2>>, <<N, N, -1>>, <<1, N, 2>>, <<N, N, 1>>, <<-1, 0, -2>>}
O(t, i) == [t |-> t, i |-> i]
OV(t, i, v) == [t |-> t, i |-> i, v |-> v]
OS(t, sl) == [t |-> t, i |-> 0, sl |-> sl]
Ops(c, st) ==
  {O("get", i) : i \in I} \cup {OS("getsl", q) : q \in Sl \cup {<<N, N, 0>>}}
  \cup {OV("set", i, v) : i \in I, v \in One(c)}
  \cup {[t |-> "setsl", i |-> 0, sl |-> q, v |-> v, form |-> fm] :
           q \in Sl2, v \in Vals(c), fm \in {"list", "gen"}}
  \cup {O("del", i) : i \in I} \cup {OS("delsl", q) : q \in Sl2}
  \cup {OV("append", 0, v) : v \in One(c)}
  \cup {OV("insert", i, v) : i \in I, v \in One(c)}
  \cup {O("pop", i) : i \in I}
  \cup {[t |-> a, i |-> 0, v |-> v, form |-> "node"] : a \in {"add", "iadd"}, v \in One(c)}
  \cup {[t |-> a, i |-> 0, v |-> v, form |-> "flow"] : a \in {"add", "iadd", "extend"},
              v \in {w \in Vals(c) : Consistent(c, w) /\ AreNodes(c, w)}}
  \cup {[t |-> "extend", i |-> 0, v |-> <<1>>, form |-> "list"], O("addself", 0)}
  \cup {O("contains", i) : i \in Ids(c)}
  \cup {OV("new", 0, v) : v \in {<<>>, <<1>>, <<1, 2>>, <<2, 1>>, <<2, 2>>}}
Init == cfg \in Cfgs /\ s = Start(cfg)
Next == \E op \in Ops(cfg, s) :
          LET r == Step(cfg, s, op)
          IN /\ Len(r.s.f) <= MaxLen
             /\ s' = r.s /\ UNCHANGED cfg
             /\ Assert(StepInv(cfg, s, op, r), <<"StepInv", s, op, r>>)
             /\ PrintT("@T" \o ToJson([c |-> cfg, f |-> [f |-> s.f], o |-> op, r |-> r.out,
                                  t |-> [f |-> r.s.f]]))
\* the derived flow matters only right after it was derived
View == <<cfg, s.f>>
=============================================================================
