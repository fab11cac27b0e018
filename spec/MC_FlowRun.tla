----------------------------- MODULE MC_FlowRun -----------------------------
EXTENDS FlowRun, Json, IOUtils
VARIABLES cfg, s, d

Mode == IOEnv.MODE            \* "train" | "run" | "cp" | "crash"
Big == IOEnv.TIER = "thorough"

Nt   == [tr |-> FALSE, n |-> 1, args |-> 0, inv |-> TRUE,  pre |-> FALSE]
NtNi == [tr |-> FALSE, n |-> 1, args |-> 0, inv |-> FALSE, pre |-> FALSE]
P1   == [tr |-> TRUE,  n |-> 1, args |-> 0, inv |-> TRUE,  pre |-> FALSE]
P2   == [tr |-> TRUE,  n |-> 2, args |-> 0, inv |-> TRUE,  pre |-> FALSE]
P3   == [tr |-> TRUE,  n |-> 3, args |-> 0, inv |-> TRUE,  pre |-> FALSE]
A1   == [tr |-> TRUE,  n |-> 1, args |-> 1, inv |-> TRUE,  pre |-> FALSE]
A2   == [tr |-> TRUE,  n |-> 2, args |-> 2, inv |-> TRUE,  pre |-> FALSE]
Pre  == [tr |-> TRUE,  n |-> 2, args |-> 0, inv |-> TRUE,  pre |-> TRUE]

Ch(rows, args, bad) == [rows |-> rows, args |-> args, bad |-> bad]
c1 == Ch(<<1>>, 0, FALSE)
c2 == Ch(<<2, 3>>, 0, FALSE)
c1a == Ch(<<1>>, 1, FALSE)
c2a == Ch(<<2, 3>>, 1, FALSE)
c2aa == Ch(<<4>>, 2, FALSE)
cb == Ch(<<1>>, 0, TRUE)
It(k, cs) == [k |-> k, chunks |-> cs]
None == [k |-> "none", chunks |-> <<>>]
NonIt == [k |-> "nonit", chunks |-> <<>>]

Its(nd) ==
  IF nd.args = 0
  THEN {None, It("list", <<c1, c2>>), It("iter", <<c1, c2>>), It("list", <<>>),
        It("list", <<c2, cb>>), It("list", <<c1a>>)}
  ELSE {None, It("list", <<c1a, c2a>>), It("list", <<c2aa>>), It("list", <<c1>>)}
GoodIt(nd) ==
  IF ~nd.tr THEN None
  ELSE It("list", IF nd.args = 0 THEN <<c2, c1>>
                  ELSE IF nd.args = 1 THEN <<c2a, c1a>> ELSE <<c2aa, c2aa>>)
SomeIts(nd) == {GoodIt(nd), None} \cup (IF nd.tr /\ nd.args = 0 THEN {It("iter", <<c1, c2>>)} ELSE {})

Seqs2(S) == {<<a, b>> : a \in S, b \in S}
Seqs3(S) == {<<a, b, c>> : a \in S, b \in S, c \in S}

Kinds == IF Big THEN {Nt, P1, P2, A1, A2, Pre} ELSE {Nt, P1, P2, A1, Pre}
NodeLists ==
  CASE Mode = "train" -> {<<a>> : a \in Kinds \cup {P3, A2}} \cup Seqs2(Kinds)
                          \cup (IF Big THEN Seqs3({Nt, P1, P2, Pre}) ELSE
                                Seqs3({P1, Pre}) \cup {<<Nt, P2, A1>>, <<P2, Nt, P1>>})
    [] Mode = "run"   -> {<<a>> : a \in {Nt, NtNi, P1, P2, A1, Pre}}
                          \cup Seqs2({Nt, NtNi, P1, P2, Pre})
                          \cup (IF Big THEN Seqs3({Nt, NtNi, P1, P2}) ELSE {<<Nt, P1, Pre>>, <<P2, Nt, P1>>, <<Pre, NtNi, Nt>>})
    [] Mode = "cp"    -> {<<a>> : a \in {Nt, P1, P2, Pre}} \cup Seqs2({Nt, P1, P2, Pre})
                          \cup (IF Big THEN Seqs3({P1, P2, Nt}) ELSE {<<P1, P2, P1>>})
    [] Mode = "crash" -> {<<a>> : a \in {Nt, P1, P2, A1}} \cup Seqs2({NtNi, P1, P2})
                          \cup {<<P1, Nt, P2>>}

Cfgs == [nodes : NodeLists, cp : {Mode = "cp"},
         cr : IF Mode = "crash" THEN {"no", "auto", "name"} ELSE {"no"}]

AllIts(c) == CASE Len(c.nodes) = 1 -> {<<a>> : a \in Its(c.nodes[1]) \cup {NonIt}}
               [] Len(c.nodes) = 2 -> {<<a, b>> : a \in Its(c.nodes[1]), b \in Its(c.nodes[2])}
                                      \cup {<<None, NonIt>>}
               [] Len(c.nodes) = 3 -> {<<a, b, e>> : a \in SomeIts(c.nodes[1]),
                                              b \in SomeIts(c.nodes[2]), e \in SomeIts(c.nodes[3])}
Good(c) == [i \in 1..Len(c.nodes) |-> GoodIt(c.nodes[i])]

Fs == {"none", "nil", "dict", "stop"}
AllCps(c) == {[k |-> "one", f |-> f] : f \in Fs}
             \cup {[k |-> "list", fs |-> q] :
                     q \in IF Len(c.nodes) = 1 THEN {<<a>> : a \in Fs}
                           ELSE IF Len(c.nodes) = 2 THEN Seqs2(Fs)
                           ELSE {<<a, b, a>> : a \in Fs, b \in Fs}}
             \cup {[k |-> "list", fs |-> <<"nil", "nil", "nil", "nil">>], [k |-> "list", fs |-> <<>>]}
NoCp == [k |-> "one", f |-> "none"]

Tr(data, cps, f) == [t |-> "train", data |-> data, cps |-> cps, fail |-> f]
L(its) == [k |-> "list", its |-> its]
RunData == {[k |-> "array", chunks |-> <<c2>>], [k |-> "list", chunks |-> <<c1, c2>>],
            [k |-> "iter", chunks |-> <<c2, c1, c1>>], [k |-> "list", chunks |-> <<>>],
            [k |-> "list", chunks |-> <<c1, cb>>]}

RunOps(c, fs) == {[t |-> "execute", data |-> x, nr |-> n, fail |-> f] :
                    x \in RunData, n \in -1..(Len(c.nodes) - 1), f \in fs}
                 \cup {[t |-> "inverse", data |-> x, nr |-> -1, fail |-> f] : x \in RunData, f \in fs}

Ops(c, st, depth) ==
  CASE Mode = "train" ->
         IF depth = 0
         THEN {Tr(L(x), NoCp, 0) : x \in AllIts(c)}
              \cup {Tr(L(Good(c)), NoCp, f) : f \in 1..(IF Big THEN 9 ELSE 5)}
              \cup {Tr([k |-> "array", chunks |-> <<c2>>], NoCp, 0), Tr([k |-> "notlist"], NoCp, 0),
                    Tr(L(<<>>), NoCp, 0), Tr(L(Append(Good(c), None)), NoCp, 0)}
         ELSE {Tr(L(Good(c)), NoCp, 0)}
              \cup (IF Big THEN {Tr(L(x), NoCp, 0) : x \in AllIts(c)} ELSE {})
    [] Mode = "run" ->
         IF depth = 0 THEN {Tr(L(Good(c)), NoCp, 0)} \cup RunOps(c, 0..2)
         ELSE RunOps(c, {0, 1, 3})
    [] Mode = "cp" ->
         {Tr(L(Good(c)), q, 0) : q \in AllCps(c)}
         \cup {Tr(L(Good(c)), [k |-> "one", f |-> "dict"], f) : f \in 1..(IF Big THEN 12 ELSE 6)}
    [] Mode = "crash" ->
         {Tr(L(Good(c)), NoCp, f) : f \in 0..(IF Big THEN 14 ELSE 8)}
         \cup {[t |-> "execute", data |-> [k |-> "list", chunks |-> <<c1, c2>>], nr |-> -1, fail |-> f] : f \in 0..5}
         \cup {[t |-> "inverse", data |-> [k |-> "list", chunks |-> <<c1, cb>>], nr |-> -1, fail |-> f] : f \in 0..2}

MaxDepth == IF Mode = "crash" THEN (IF Big THEN 3 ELSE 2) ELSE IF Big /\ Mode # "run" THEN 3 ELSE 2

Init == cfg \in Cfgs /\ s = Start(cfg) /\ d = 0

Next == /\ d < MaxDepth
        /\ \E op \in Ops(cfg, s, d) :
            LET r == Step(cfg, s, op)
            IN /\ s' = r.s
               /\ d' = d + 1
               /\ UNCHANGED cfg
               /\ Assert(StepInv(cfg, s, op, r), <<"StepInv", s, op, r>>)
               /\ PrintT("@T" \o ToJson([c |-> cfg, f |-> s, o |-> op, r |-> r.out, t |-> r.s]))
View == <<cfg, s>>
=============================================================================
