----------------------------- MODULE MC_BiFlow ------------------------------
EXTENDS BiFlow, Json, IOUtils
VARIABLES cfg, s, d
Mode == IOEnv.MODE            \* "jump" | "chunks" | "train" | "phases"
Big == IOEnv.TIER = "thorough"

Res(f, a, r, t) == [f |-> f, a |-> a, r |-> r, t |-> t]
X == Res("x", 0, 0, "")
M == Res("m", 10, 0, "")
Ar == Res("m", 0, 20, "")
Z == Res("z", 13, 0, "")
None == Res("n", 0, 0, "")
J(t) == Res("t", 0, 0, t)
JM(t) == Res("t", 11, 21, t)
Plain(n) == [k |-> "plain", id |-> "", n |-> n, ex |-> <<>>, tr |-> <<>>, sp |-> None]
Bi(id, n, ex, tr, sp) == [k |-> "bi", id |-> id, n |-> n, ex |-> ex, tr |-> tr, sp |-> sp]
Js == {J(t) : t \in Codes \cup {"exit", "p", "z"}}
Seqs2(S) == {<<a, b>> : a \in S, b \in S}
Seqs3(S) == {<<a, b, c>> : a \in S, b \in S, c \in S}

JNodes == {Plain(0), Bi("", 0, <<>>, <<>>, None)}
          \cup {Bi("p", 0, <<e>>, <<>>, None) : e \in Js}
          \cup {Bi("", 0, <<e>>, <<>>, None) : e \in {J("p"), J("-1"), JM("2")}}
CNodes == {Plain(0), Plain(2), Bi("q", 0, <<X>>, <<>>, None), Bi("q", 0, <<M>>, <<>>, None)} \cup {Bi(id, 0, <<e>>, <<>>, None) : id \in {"", "p"}, e \in {X, M, Ar, Z, JM("exit")}}
TBefore == {Plain(0), Plain(1), Bi("p", 0, <<>>, <<>>, None), Bi("", 0, <<M, J("1")>>, <<>>, None),
            Bi("", 0, <<J("exit")>>, <<>>, None), Bi("q", 1, <<X>>, <<>>, X)}
TNodes == {Bi("q", n, <<M>>, tr, None) : n \in {1, 2},
             tr \in {<<>>, <<X>>, <<None, M>>} \cup {<<JM(t)>> : t \in Codes \cup {"exit", "p", "z"}}
                    \cup {<<J("-1"), J("p")>>}}
PNodes == {Bi("q", 2, <<>>, <<>>, sp) : sp \in {None, X, M} \cup {JM(t) : t \in Codes \cup {"exit", "p", "z"}}}
          \cup {Plain(1), Plain(2)}
NodeLists ==
  CASE Mode = "jump" -> {<<a>> : a \in JNodes} \cup Seqs2(JNodes) \cup Seqs3(JNodes)
    [] Mode = "chunks" -> {<<a>> : a \in CNodes} \cup Seqs2(CNodes)
    [] Mode = "train" -> {<<b>> : b \in TNodes} \cup {<<a, b>> : a \in TBefore, b \in TNodes}
                         \cup {<<a, b, c>> : a \in {Plain(0), Bi("p", 0, <<>>, <<>>, None)}, b \in TNodes, c \in TBefore}
    [] Mode = "phases" -> {<<b>> : b \in PNodes} \cup {<<a, b>> : a \in TBefore, b \in PNodes}
                         \cup {<<a, b, c>> : a \in {Plain(0), Bi("p", 0, <<Ar>>, <<>>, None)}, b \in PNodes, c \in TBefore}
Cfgs == [nodes : NodeLists, cp : {Mode = "phases"}]

Ms(a, r, pa) == [a |-> a, r |-> r, pa |-> pa]
Ch(x, m, t) == [x |-> x, m |-> m, t |-> t]
Ex(k, cs) == [t |-> "execute", k |-> k, cs |-> cs]
D(x, m) == [x |-> x, m |-> m]
List(cs) == [k |-> "list", cs |-> cs]
Tr(its, sms, cps) == [t |-> "train", form |-> "list", its |-> its, sms |-> sms, cps |-> cps]
All(c, v) == [i \in 1..N(c) |-> v]
Chs == {Ch(<<1>>, NoMsg, ""), Ch(<<2, 3>>, Ms(3, 4, 6), ""), Ch(<<4>>, Ms(0, 5, 0), "1"), Ch(<<>>, Ms(2, 0, 0), "")}
Ops(c) ==
  CASE Mode = "jump" -> {Ex("one", <<Ch(<<1>>, m, t)>>) : m \in {NoMsg, Ms(3, 0, 0)}, t \in {"", "p"}}
    [] Mode = "chunks" -> {Ex(k, cs) : k \in {"list", "iter"},
                             cs \in {<<>>} \cup {cs \in Seqs2(Chs) \cup {<<a>> : a \in Chs} :
                                                  \A i, j \in DOMAIN cs : (cs[i].x = <<>>) = (cs[j].x = <<>>)}}
                          \cup {Ex("list", <<Ch(<<1>>, NoMsg, t)>>) : t \in {"p", "-1", "z", "exit"}}
    [] Mode = "train" -> {Tr(All(c, List(cs)), All(c, NoMsg), <<>>) :
                            cs \in {<<D(<<1>>, NoMsg)>>, <<D(<<2, 3>>, Ms(3, 4, 6)), D(<<1>>, NoMsg)>>}}
                         \cup {Tr(All(c, [k |-> "iter", cs |-> <<D(<<1>>, Ms(1, 0, 0))>>]), All(c, NoMsg), <<>>)}
    [] Mode = "phases" -> {Tr(All(c, List(<<D(<<1>>, NoMsg), D(<<2>>, Ms(3, 4, 6))>>)), sms,
                              [i \in 1..N(c) |-> CASE i = q -> "dict" [] i = q + 1 -> "nil" [] OTHER -> "none"]) :
                             sms \in {All(c, NoMsg), [i \in 1..N(c) |-> IF c.nodes[i].k = "bi" THEN Ms(1, 0, 7) ELSE NoMsg]},
                             q \in 0..N(c)}
Init == cfg \in Cfgs /\ s = Start(cfg) /\ d = 0
Next == /\ d < (IF Big THEN 2 ELSE 1)
        /\ \E op \in Ops(cfg) :
            LET r == Step(cfg, s, op)
            IN /\ s' = r.s
               /\ d' = d + 1
               /\ UNCHANGED cfg
               /\ Assert(StepInv(cfg, s, op, r), <<"StepInv", s, op, r>>)
               /\ PrintT("@T" \o ToJson([c |-> cfg, f |-> s, o |-> op, r |-> r.out, t |-> r.s]))
View == <<cfg, s>>
=============================================================================
