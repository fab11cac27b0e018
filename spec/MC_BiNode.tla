----------------------------- MODULE MC_BiNode -----------------------------
EXTENDS BiNode, Json, IOUtils
VARIABLES cfg, s

Mode == IOEnv.MODE            \* "parse" | "route" | "life" | "co"
Big == IOEnv.TIER = "thorough"

Ret(f, m, t) == [f |-> f, m |-> m, t |-> t]
M(a, b, g, r) == [a |-> a, b |-> b, msg |-> g, r |-> r]
Simple == M("no", "no", FALSE, Ret("x", "none", ""))
Nil == M("no", "no", FALSE, Ret("none", "none", ""))
Rets == {Ret("none", "none", ""), Ret("x", "none", ""), Ret("xm", "none", ""), Ret("xm", "empty", ""),
         Ret("xm", "c", ""), Ret("xm", "got", ""), Ret("nm", "c", ""), Ret("xmt", "none", "1"),
         Ret("xmt", "c", "id"), Ret("nmt", "got", "exit")}
FewRets == {Ret("x", "none", ""), Ret("xm", "c", ""), Ret("xm", "got", ""), Ret("xmt", "c", "id")}
Base == [id |-> TRUE, n |-> 0, inv |-> TRUE, sr |-> "no", co |-> 0, cot |-> "", cor |-> "none",
         m |-> [execute |-> Simple, inverse |-> M("opt", "no", FALSE, Ret("xm", "c", "")),
                other |-> M("opt", "no", TRUE, Ret("xmt", "got", "2")),
                train |-> Nil, train2 |-> Nil, stop |-> Nil, stop2 |-> Nil]]
Arg == {"no", "req", "opt"}

Cfgs ==
  CASE Mode = "parse" ->
         {[Base EXCEPT !.id = i, !.m.execute = M(a, b, g, r)] :
            i \in BOOLEAN, a \in Arg, b \in (IF Big THEN Arg ELSE {"no", "opt"}), g \in BOOLEAN,
            r \in (IF Big THEN Rets ELSE FewRets)}
    [] Mode = "route" ->
         {[Base EXCEPT !.id = i, !.inv = v, !.n = n, !.m.execute = M("opt", "no", FALSE, r)] :
            i \in BOOLEAN, v \in BOOLEAN, n \in 0..1, r \in (IF Big THEN FewRets ELSE {Ret("x", "none", ""), Ret("xm", "c", "")})}
         \cup {[Base EXCEPT !.n = 1, !.m.train = M("opt", "no", FALSE, r)] : r \in Rets}
         \cup {[Base EXCEPT !.n = 1, !.sr = q, !.m.stop = M("opt", "no", FALSE, r)] : r \in Rets, q \in {"no", "yes"}}
    [] Mode = "life" ->
         {[Base EXCEPT !.n = n, !.inv = v, !.sr = q, !.m.train = M(a, "no", FALSE, r), !.m.train2 = M("no", "opt", FALSE, r),
                       !.m.stop = M(a2, "no", FALSE, r2), !.m.stop2 = M("no", "no", TRUE, r2)] :
            n \in 0..2, v \in BOOLEAN, q \in {"no", "yes"}, a \in {"no", "req"}, a2 \in (IF Big THEN {"no", "req"} ELSE {"no"}),
            r \in {Ret("none", "none", ""), Ret("xm", "c", ""), Ret("nm", "c", "")},
            r2 \in {Ret("none", "none", ""), Ret("xmt", "c", "-1")}}
    [] Mode = "co" ->
         {[Base EXCEPT !.n = n, !.co = k, !.cot = t, !.cor = e, !.id = i] :
            n \in 0..1, k \in 1..3, t \in {"", "id"}, e \in {"none", "x", "xm"}, i \in BOOLEAN}

V(S, v) == IF S THEN {0, v} ELSE {0}
Msgs(A, B, C, X, T, NT, ME, NME) ==
  {[k |-> TRUE, a |-> a, Na |-> na, b |-> b, Nb |-> nb, c |-> c, Nc |-> nc, Ma |-> ma, x |-> x,
    tgt |-> t, Ntgt |-> nt, meth |-> me, Nmeth |-> nme] :
    a \in V(A, 1), na \in V(A, 2), b \in V(B, 3), nb \in V(B, 4), c \in V(C, 5), nc \in V(C, 6),
    ma \in V(C, 7), x \in V(X, 9), t \in T, nt \in NT, me \in ME, nme \in NME}
E0 == {""}
Small == {NoMsg, Empty, [Empty EXCEPT !.a = 1], [Empty EXCEPT !.Na = 2, !.b = 3, !.c = 5],
          [Empty EXCEPT !.tgt = "id", !.a = 1], [Empty EXCEPT !.Nmeth = "inverse", !.a = 1, !.x = 9],
          [Empty EXCEPT !.meth = "execute", !.x = 9]}
MaxDepth == 9
Ops(c) ==
  CASE Mode = "parse" ->
         {[t |-> "execute", x |-> "x", m |-> m] : m \in {q \in Msgs(TRUE, TRUE, TRUE, FALSE, E0, E0, E0, E0) :
                                                   Big \/ ((q.c = 0) = (q.Ma = 0) /\ (q.Nb = 0) = (q.Nc = 0))}}
         \cup {[t |-> "execute", x |-> x, m |-> m] : x \in {"", "bad"}, m \in {NoMsg, Empty, [Empty EXCEPT !.a = 1, !.Nb = 4]}}
    [] Mode = "route" ->
         {q \in {[t |-> t, x |-> x, m |-> m] : t \in {"execute", "train", "stop"}, x \in {"x", "", "bad"},
            m \in {NoMsg} \cup Msgs(FALSE, FALSE, FALSE, TRUE, IF Big THEN {"", "1", "id"} ELSE {"", "id"}, {"", "exit"},
                                    {"", "execute", "inverse", "other", "train", "nosuch"}, {"", "other"})} :
             Big \/ (/\ q.x = "bad" => q.m.tgt = "" /\ q.m.Ntgt = ""
                     /\ q.m.x # 0 => q.t = "stop" \/ q.m.Ntgt = ""
                     /\ q.m.Nmeth # "" => q.m.tgt = "" /\ q.m.meth \in {"", "inverse"})}
    [] Mode = "life" ->
         {[t |-> t, x |-> x, m |-> m] : t \in {"execute", "train", "stop", "reset"}, x \in {"x", "", "bad"}, m \in Small}
    [] Mode = "co" ->
         {[t |-> t, x |-> x, m |-> m] : t \in {"execute", "train", "stop", "reset"}, x \in {"x", ""}, m \in Small}

Init == cfg \in Cfgs /\ s = Start(cfg)
Next == \E op \in Ops(cfg) :
            LET r == Step(cfg, s, op)
            IN /\ (op.t \in {"stop", "reset"} => op.x = "") /\ (op.t = "reset" => op.m = NoMsg)
               /\ s' = r.s
               /\ UNCHANGED cfg
               /\ Assert(StepInv(cfg, s, op, r), <<"StepInv", s, op, r>>)
               /\ PrintT("@T" \o ToJson([c |-> cfg, f |-> s, o |-> op, r |-> r.out, t |-> r.s]))
View == <<cfg, s>>
=============================================================================
