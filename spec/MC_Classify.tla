---------------------------- MODULE MC_Classify ----------------------------
EXTENDS Classify, Json, IOUtils
VARIABLES cfg, s, d
Big == IOEnv.TIER = "thorough"
C0 == [kind |-> "signum", k |-> 1, em |-> "", i |-> 0, dt |-> "", lr |-> 1, mi |-> 100, lt |-> "int"]
K(kind) == [C0 EXCEPT !.kind = kind]
Ems(S) == {[c EXCEPT !.em = e] : c \in S, e \in {"", "label", "prob", "rank"}}
Cfgs == Ems({K("signum"), K("markov"), K("gauss")}) \cup {[K("perceptron") EXCEPT !.lr = lr] : lr \in {1, 2}}
        \cup {[K("knn") EXCEPT !.k = k, !.lt = lt, !.em = "label"] : k \in 1..4, lt \in {"int", "str"}}
        \cup {[K(k) EXCEPT !.lt = lt] : k \in {"mean", "cumul", "markov", "gauss"}, lt \in {"int", "str", "frac"}}
        \cup {K("hopfield"), [K("hopfield") EXCEPT !.i = 4, !.em = "label"], [K("mean") EXCEPT !.i = 2, !.em = "rank"], [K("knn") EXCEPT !.i = 2]}
\* a chunk: rows and labels
Z(x, l, form) == [x |-> x, l |-> l, form |-> form]
Two == {Z(<<<<0, 1>>>>, <<1>>, "one"), Z(<<<<2, 2>>, <<0, 0>>>>, <<2, 1>>, "array"), Z(<<<<1, 0>>, <<3, 1>>, <<1, 0>>>>, <<1, 3, 1>>, "list"),
        Z(<<<<0, 2>>, <<2, 0>>>>, <<2>>, "one"), Z(<<<<1, 1>>, <<1, 1>>>>, <<1>>, "array"), Z(<<<<2, 2>>, <<2, 1>>, <<4, 0>>>>, <<3, 2, 3>>, "tuple")}
One == {Z(<<<<0>>, <<4>>>>, <<1>>, "one"), Z(<<<<2>>, <<3>>, <<7>>>>, <<2, 1, 2>>, "array"), Z(<<<<5>>>>, <<2>>, "one"), Z(<<<<1>>, <<1>>>>, <<3, 3>>, "list"),
        Z(<<<<3>>, <<5>>>>, <<1, 2>>, "tuple"), Z(<<<<3>>>>, <<1, 2>>, "list"), Z(<<<<1, 2>>>>, <<1>>, "one")}
Signs == {Z(<<<<0, 1>>>>, <<-1>>, "one"), Z(<<<<2, 2>>, <<0, 0>>>>, <<1, -1>>, "array"), Z(<<<<1, 0>>, <<3, 1>>, <<-1, 0>>>>, <<1, 1, -1>>, "list"),
          Z(<<<<1, -2>>>>, <<2>>, "one"), Z(<<<<-1, 1>>, <<1, 1>>>>, <<-1>>, "one"), Z(<<<<-2, 1>>, <<1, 1>>>>, <<-1, 0>>, "list")}
Patt == {Z(<<<<1, 0, 1, 0>>>>, <<>>, "none"), Z(<<<<1, 1, 0, 0>>, <<0, 1, 1, 0>>>>, <<>>, "none"), Z(<<<<1, 1, 1, 1>>>>, <<>>, "none"),
         Z(<<<<0, 0, 0, 1>>>>, <<>>, "none"), Z(<<<<0, 1>>>>, <<>>, "none")}
Chunks(c) == CASE c.kind = "perceptron" -> Signs [] c.kind = "hopfield" -> Patt [] c.kind = "gauss" -> One
               [] c.kind \in {"mean", "knn"} -> Two \cup {Z(<<<<1>>>>, <<1>>, "one")}
               [] OTHER -> {z \in Two : z.form # "tuple"} \cup {Z(<<<<1, 1>>>>, <<1, 2>>, "array")}
Dt(c) == CASE c.kind = "hopfield" -> {"i1"} [] c.kind = "signum" -> {"i8", "f8"} [] OTHER -> {"f8"}
Mk(rows, dt) == [x |-> rows, cols |-> Len(rows[1]), dt |-> dt]
Quer(c) == CASE c.kind = "hopfield" -> {<<<<1, 0, 1, 1>>, <<1, 1, 1, 0>>>>, <<<<0, 0, 0, 0>>, <<1, 1, 0, 0>>>>, <<<<0, 1>>>>}
             [] c.kind = "gauss" -> {<<<<0>>, <<4>>>>, <<<<-1>>, <<2>>, <<10>>>>, <<<<1, 2>>>>}
             [] OTHER -> {<<<<0, 0>>, <<1, 0>>, <<2, 1>>>>, <<<<2, 2>>, <<1, 1>>>>, <<<<1, -2>>>>, <<<<1>>>>}
Q(c, st, x) == IF c.kind = "gauss" /\ st.data # <<>> /\ Regular(st) /\ Len(x[1]) = st.i THEN [t \in 1..Len(x) |-> Gauss(st, x[t])] ELSE <<>>
Ops(c, st, k) ==
  IF k = 0 THEN {[t |-> "new"]}
  ELSE {[t |-> "train", x |-> Mk(z.x, dt), l |-> z.l, form |-> z.form] : z \in Chunks(c), dt \in Dt(c)}
       \cup (IF k < 2 /\ Trainable(c) THEN {} ELSE
             {[t |-> "stop"]} \cup
             {[t |-> t, x |-> Mk(x, dt), q |-> Q(c, st, x), thr |-> IF c.kind # "hopfield" THEN -1 ELSE 0] : t \in {"label", "prob", "execute"}, x \in Quer(c), dt \in Dt(c)}
             \cup {[t |-> "rank", x |-> Mk(x, dt), q |-> <<>>, thr |-> thr] : x \in Quer(c), dt \in Dt(c), thr \in {-1, 0, 1000}}
             \cup (IF c.kind = "hopfield" THEN {[t |-> "label", x |-> Mk(x, "i1"), q |-> <<>>, thr |-> thr] : x \in Quer(c), thr \in {-1, 1}} ELSE {}))
Init == cfg \in Cfgs /\ s = Start(cfg) /\ d = 0
Next == /\ d < (IF Big THEN 5 ELSE 4)
        /\ ~s.bad
        /\ \E op \in Ops(cfg, s, d) :
            LET r == Step(cfg, s, op)
            IN /\ s' = r.s
               /\ d' = d + 1
               /\ UNCHANGED cfg
               /\ Assert(StepInv(cfg, s, op, r), <<"StepInv", s, op, r>>)
               /\ PrintT("@T" \o ToJson([c |-> cfg, f |-> s, o |-> op, r |-> r.out, t |-> r.s]))
View == <<cfg, s>>
=============================================================================
