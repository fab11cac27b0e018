------------------------------ MODULE Classify ------------------------------
(* Classifier nodes: what they learn is a function of the sequence of        *)
(* (sample, label) pairs they were given, however it was cut into chunks.    *)
EXTENDS Integers, Sequences, FiniteSets, TLC

\* cfg: [kind : "signum" | "perceptron" | "markov" | "hopfield" | "kmeans" |
\*       "gauss" | "mean" | "knn" | "cumul", k : neighbours or clusters,
\*       em : "" | "label" | "prob" | "rank" (what execute does), i : 0 or input dim,
\*       dt : data type or "", lr : twice the learning rate, mi : limit of iterations]
\* Labels are numbers here; the driver turns them into numbers, strings or fractions.
\* data: all the pairs seen, in order.  part: the cluster of each sample (kmeans).
Start(cfg) == [made |-> FALSE, i |-> 0, dt |-> "", train |-> "no", data |-> <<>>, part |-> <<>>, bad |-> FALSE]
Out(e, y) == [e |-> e, y |-> y]
Ok(s) == [s |-> s, out |-> Out(FALSE, <<>>)]
Refuse(s) == [s |-> s, out |-> Out(TRUE, <<>>)]
Free(s) == [s |-> [s EXCEPT !.bad = TRUE], out |-> "*"]
OneOf(S) == [any |-> S]

RECURSIVE Cat(_), Sum(_), SumSet(_, _)
Cat(q) == IF q = <<>> THEN <<>> ELSE q[1] \o Cat(Tail(q))
Sum(q) == IF q = <<>> THEN 0 ELSE q[1] + Sum(Tail(q))
SumSet(S, f) == IF S = {} THEN 0 ELSE LET a == CHOOSE a \in S : TRUE IN f[a] + SumSet(S \ {a}, f)
Sign(n) == IF n > 0 THEN 1 ELSE IF n < 0 THEN -1 ELSE 0
Dot(a, b) == Sum([k \in 1..Len(a) |-> a[k] * b[k]])
Dist2(a, b) == Sum([k \in 1..Len(a) |-> (a[k] - b[k]) * (a[k] - b[k])])
RECURSIVE SortSet(_)
SortSet(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE m \in S : \A n \in S : m <= n IN <<m>> \o SortSet(S \ {m})

Labels(d) == {d[t].l : t \in 1..Len(d)}
Idx(d, l) == {t \in 1..Len(d) : d[t].l = l}
Of(d, l) == SelectSeq(d, LAMBDA p : p.l = l)
ColSum(d, n) == [c \in 1..n |-> Sum([t \in 1..Len(d) |-> d[t].x[c]])]

\* ---- perceptron: weights are doubled ----
RECURSIVE Learn(_, _, _)
Learn(cfg, w, d) ==
  IF d = <<>> THEN w
  ELSE LET n == Len(w) - 1
           x == d[1].x \o <<1>>
           rate == cfg.lr * (d[1].l - Sign(Dot(x, w)))
       IN Learn(cfg, [k \in 1..(n + 1) |-> w[k] + rate * x[k]], Tail(d))
Weights(cfg, s) == Learn(cfg, [k \in 1..(s.i + 1) |-> IF k <= s.i THEN 2 ELSE 0], s.data)

\* ---- nearest mean: |x - S/n|^2, over n^2 ----
MeanDist(s, x, l) == LET d == Of(s.data, l) n == Len(d) m == ColSum(d, s.i)
                     IN <<Sum([k \in 1..s.i |-> (n * x[k] - m[k]) * (n * x[k] - m[k])]), n * n>>
NoMore(a, b) == a[1] * b[2] <= b[1] * a[2]
NearestMean(s, x) == {l \in Labels(s.data) : \A m \in Labels(s.data) : NoMore(MeanDist(s, x, l), MeanDist(s, x, m))}

\* ---- k nearest neighbours: any choice among equally distant ones, any winner of a tie ----
Nearest(cfg, s, x) ==
  LET n == Len(s.data)
      k == IF cfg.k < n THEN cfg.k ELSE n
      dist == [t \in 1..n |-> Dist2(x, s.data[t].x)]
      r == CHOOSE v \in {dist[t] : t \in 1..n} : Cardinality({t \in 1..n : dist[t] < v}) < k /\ Cardinality({t \in 1..n : dist[t] <= v}) >= k
      sure == {t \in 1..n : dist[t] < r}
      edge == {t \in 1..n : dist[t] = r}
      picks == {sure \cup p : p \in {p \in SUBSET edge : Cardinality(p) = k - Cardinality(sure)}}
      count(p, l) == Cardinality({t \in p : s.data[t].l = l})
  IN {l \in Labels(s.data) : \E p \in picks : \A m \in Labels(s.data) : count(p, l) >= count(p, m)}

\* ---- Markov: relative frequencies, times 2520 ----
Unit == 2520
Markov(s, x) ==
  LET n == Cardinality({t \in 1..Len(s.data) : s.data[t].x = x})
      ls == SortSet(Labels(s.data))
  IN IF n = 0 THEN <<>>
     ELSE [k \in 1..Len(ls) |-> <<ls[k], (Unit * Cardinality({t \in 1..Len(s.data) : s.data[t].x = x /\ s.data[t].l = ls[k]})) \div n>>]
Perms(q) == {f \in [1..Len(q) -> {q[k] : k \in 1..Len(q)}] : {f[k] : k \in 1..Len(q)} = {q[k] : k \in 1..Len(q)}}
Ranks(p, thr) == LET q == IF thr < 0 THEN p ELSE SelectSeq(p, LAMBDA a : a[2] > thr)
                 IN {[k \in 1..Len(f) |-> f[k][1]] : f \in {f \in Perms(q) : \A k \in 1..(Len(f) - 1) : f[k][2] >= f[k + 1][2]}}

\* ---- Hopfield: asynchronous updates until nothing changes; weights times the dimension ----
Bits(x) == [k \in 1..Len(x) |-> IF x[k] > 0 THEN 1 ELSE -1]
Weight(s) == [a \in 1..s.i |-> [b \in 1..s.i |-> IF a = b THEN 0 ELSE Sum([t \in 1..Len(s.data) |-> Bits(s.data[t].x)[a] * Bits(s.data[t].x)[b]])]]
Moves(W, thr, y) == {[y EXCEPT ![a] = Sign(Dot(W[a], y) - thr * Len(y))] : a \in {a \in 1..Len(y) : Sign(Dot(W[a], y) - thr * Len(y)) \notin {0, y[a]}}}
RECURSIVE Reach(_, _, _)
Reach(W, thr, S) == LET T == S \cup UNION {Moves(W, thr, y) : y \in S} IN IF T = S THEN S ELSE Reach(W, thr, T)
Recall(s, thr, x) == LET W == Weight(s)
                     IN {[k \in 1..Len(y) |-> IF y[k] > 0 THEN 1 ELSE 0] : y \in {y \in Reach(W, thr, {Bits(x)}) : Moves(W, thr, y) = {}}}

\* ---- Gaussians: with T = n sum(xx') - sum(x)sum(x)', u = n x - sum(x): ----
\* covariance T / (n (n-1)), Mahalanobis distance (n-1) u' adj(T) u / (n det(T))
Scatter(d, n) == LET m == ColSum(d, n) IN
  [a \in 1..n |-> [b \in 1..n |-> (Len(d) * Sum([t \in 1..Len(d) |-> d[t].x[a] * d[t].x[b]])) - (m[a] * m[b])]]
Det(T) == IF Len(T) = 1 THEN T[1][1] ELSE (T[1][1] * T[2][2]) - (T[1][2] * T[2][1])
Adj(T) == IF Len(T) = 1 THEN <<<<1>>>> ELSE <<<<T[2][2], -T[1][2]>>, <<-T[2][1], T[1][1]>>>>
RECURSIVE Pow(_, _)
Pow(a, n) == IF n = 0 THEN 1 ELSE a * Pow(a, n - 1)
Maha(s, x, l) == LET d == Of(s.data, l) n == Len(d) T == Scatter(d, s.i) m == ColSum(d, s.i)
                     u == [k \in 1..s.i |-> (n * x[k]) - m[k]]
                     v == [k \in 1..s.i |-> Dot(Adj(T)[k], u)]
                 IN <<(n - 1) * Dot(u, v), n * Det(T)>>
\* (prior / sqrt(det))^2 of label l relative to label m
Ratio(s, l, m) == LET a == Of(s.data, l) b == Of(s.data, m) n == Len(a) k == Len(b) IN
  <<n * n * Pow(n * (n - 1), s.i) * Det(Scatter(b, s.i)), k * k * Pow(k * (k - 1), s.i) * Det(Scatter(a, s.i))>>
Regular(s) == \A l \in Labels(s.data) : Len(Of(s.data, l)) > 1 /\ Det(Scatter(Of(s.data, l), s.i)) # 0
\* singular beyond any rounding
Singular(s) == \E l \in Labels(s.data) : LET n == Len(Of(s.data, l)) IN
                 n = 1 \/ (n = 2 /\ \E k \in 1..s.i : Scatter(Of(s.data, l), s.i)[k][k] = 0)
Gauss(s, x) == LET ls == SortSet(Labels(s.data))
               IN [k \in 1..Len(ls) |-> <<ls[k], Maha(s, x, ls[k]), Ratio(s, ls[k], ls[1])>>]

\* ---- k means: every sample is in the cluster with the nearest mean ----
Members(s, part, c) == {t \in 1..Len(s.data) : part[t] = c}
CDist(s, part, x, c) == LET M == Members(s, part, c) n == Cardinality(M)
                            m == [k \in 1..s.i |-> SumSet(M, [t \in M |-> s.data[t].x[k]])]
                        IN <<Sum([k \in 1..s.i |-> (n * x[k] - m[k]) * (n * x[k] - m[k])]), n * n>>
Best(s, part, x, c) == Members(s, part, c) # {} /\ \A b \in {part[t] : t \in 1..Len(part)} : NoMore(CDist(s, part, x, c), CDist(s, part, x, b))
\* op.res.train: the labels of all the samples trained on; op.res.q: the answers
KMeans(cfg, s, op) ==
  LET p == op.res.train q == op.res.q n == Len(s.data)
      range == \A c \in {p[t] : t \in 1..Len(p)} \cup {q[t] : t \in 1..Len(q)} : c \in 0..(cfg.k - 1)
      \* a query lies in the best of the clusters with samples, or in one without
      good == /\ \A t \in 1..n : Best(s, p, s.data[t].x, p[t])
              /\ \A t \in 1..Len(q) : Members(s, p, q[t]) = {} \/ Best(s, p, op.x.x[t], q[t])
  IN IF Len(p) # n \/ Len(q) # Len(op.x.x) THEN "wrong number of labels"
     ELSE IF ~range THEN "no such cluster"
     ELSE IF s.part \notin {<<>>, p} THEN "clusters changed"
     ELSE IF \E t \in 1..Len(q) : \E j \in 1..n : op.x.x[t] = s.data[j].x /\ q[t] # p[j] THEN "same sample, different label"
     ELSE IF cfg.mi > 1 /\ ~good THEN "not the nearest mean"
     ELSE "clusters"

\* ---- life ----
Trainable(cfg) == cfg.kind # "signum"
Labelled(cfg) == cfg.kind \notin {"signum", "hopfield", "kmeans"}
Fixed(s, x) == [s EXCEPT !.i = IF @ = 0 THEN x.cols ELSE @, !.dt = IF @ = "" THEN x.dt ELSE @]
Fits(s, x) == x.cols = s.i /\ Len(x.x) > 0

Train(cfg, s, op) ==
  LET s2 == Fixed(s, op.x)
      n == Len(op.x.x)
      lab(t) == IF ~Labelled(cfg) THEN 0 ELSE IF op.form = "one" THEN op.l[1] ELSE op.l[t]
  IN IF ~Trainable(cfg) \/ s.train = "done" THEN Refuse(s)
     ELSE IF ~Fits(s2, op.x) THEN Refuse(s2)
     ELSE IF Labelled(cfg) /\ op.form # "one" /\ Len(op.l) # n THEN Refuse(s2)
     ELSE IF cfg.kind = "perceptron" /\ \E k \in 1..Len(op.l) : op.l[k] \notin {-1, 1} THEN Refuse(s2)
     ELSE Ok([s2 EXCEPT !.train = "on", !.data = @ \o [t \in 1..n |-> [x |-> op.x.x[t], l |-> lab(t)]]])

\* ends a training: [s, out] with out empty if it could be ended
Stop(cfg, s) ==
  CASE s.train = "new" -> Refuse(s)
    [] cfg.kind = "gauss" /\ s.i > 2 -> Free(s)
    [] cfg.kind = "gauss" /\ Singular(s) -> [Refuse(s) EXCEPT !.s.bad = TRUE]
    [] cfg.kind = "gauss" /\ ~Regular(s) -> Free(s)
    [] cfg.kind = "kmeans" /\ Len(s.data) < cfg.k -> [Refuse(s) EXCEPT !.s.bad = TRUE]
    [] OTHER -> Ok([s EXCEPT !.train = "done"])

Answer(cfg, s, op, what) ==
  LET rows == op.x.x
      y(F(_)) == [s |-> s, out |-> Out(FALSE, [t \in 1..Len(rows) |-> F(rows[t])])]
  IN CASE what = "label" ->
            (CASE cfg.kind = "signum" -> y(LAMBDA x : Sign(Sum(x)))
               [] cfg.kind = "perceptron" -> LET w == Weights(cfg, s) IN y(LAMBDA x : Sign(Dot(x \o <<1>>, w)))
               [] cfg.kind = "hopfield" -> y(LAMBDA x : OneOf(Recall(s, op.thr, x)))
               [] cfg.kind = "mean" -> y(LAMBDA x : OneOf(NearestMean(s, x)))
               [] cfg.kind = "knn" -> y(LAMBDA x : OneOf(Nearest(cfg, s, x)))
               [] cfg.kind = "gauss" -> [s |-> s, out |-> Out(FALSE, "most probable")]
               [] cfg.kind = "kmeans" -> [s |-> [s EXCEPT !.part = op.res.train], out |-> Out(FALSE, KMeans(cfg, s, op))]
               [] OTHER -> Refuse(s))
       [] what = "prob" ->
            (CASE cfg.kind = "markov" -> y(LAMBDA x : Markov(s, x))
               [] cfg.kind = "gauss" -> y(LAMBDA x : Gauss(s, x))
               [] OTHER -> Refuse(s))
       [] what = "rank" ->
            (CASE cfg.kind = "markov" -> y(LAMBDA x : OneOf(Ranks(Markov(s, x), op.thr)))
               [] cfg.kind = "gauss" -> [s |-> s, out |-> Out(FALSE, "by probability")]
               [] OTHER -> Refuse(s))
       [] OTHER -> y(LAMBDA x : x)

Ask(cfg, s, op) ==
  LET r0 == IF s.train # "new" THEN Ok(s)
            \* a node that has seen nothing is trained with what it is asked about, if that needs no labels
            ELSE IF Labelled(cfg) THEN Refuse(s)
            ELSE Train(cfg, s, [t |-> "train", x |-> op.x, form |-> "none", l |-> <<>>])
      r == IF r0.out.e THEN r0 ELSE IF r0.s.train # "on" THEN r0 ELSE Stop(cfg, r0.s)
      s2 == Fixed(r.s, op.x)
      what == IF op.t # "execute" THEN op.t ELSE cfg.em
  IN IF r.s.bad THEN r ELSE IF r.out.e THEN r
     ELSE IF ~Fits(s2, op.x) THEN Refuse(s2)
     ELSE Answer(cfg, s2, op, what)

Step(cfg, s, op) ==
  CASE op.t = "new" -> Ok([s EXCEPT !.made = TRUE, !.i = cfg.i, !.dt = IF cfg.kind = "hopfield" THEN "i1" ELSE cfg.dt,
                                    !.train = IF Trainable(cfg) THEN "new" ELSE "no"])
    [] op.t = "train" -> Train(cfg, s, op)
    [] op.t = "stop" -> IF s.train # "on" THEN Refuse(s) ELSE Stop(cfg, s)
    [] OTHER -> Ask(cfg, s, op)

\* the same pairs in one chunk, or one by one, give the same state
OneByOne(cfg, s, op) ==
  LET n == Len(op.x.x)
      one(t) == [op EXCEPT !.x.x = <<op.x.x[t]>>, !.form = "one", !.l = IF op.l = <<>> THEN <<>> ELSE <<IF op.form = "one" THEN op.l[1] ELSE op.l[t]>>]
      run[t \in 0..n] == IF t = 0 THEN s ELSE Train(cfg, run[t - 1], one(t)).s
  IN run[n]
StepInv(cfg, s, op, r) ==
  /\ op.t = "train" /\ ~r.out.e => r.s = OneByOne(cfg, s, op)
  /\ op.t = "label" /\ ~r.s.bad /\ cfg.kind \in {"mean", "knn", "hopfield"} /\ ~r.out.e =>
       \A t \in 1..Len(r.out.y) : r.out.y[t].any # {} /\ (cfg.kind # "hopfield" => r.out.y[t].any \subseteq Labels(s.data))
  /\ op.t = "prob" /\ ~r.s.bad /\ cfg.kind = "markov" /\ ~r.out.e =>
       \A t \in 1..Len(r.out.y) : LET p == r.out.y[t] IN Sum([k \in 1..Len(p) |-> p[k][2]]) \in {0, Unit}
  \* a majority of all the neighbours wins whatever is picked
  /\ op.t = "label" /\ ~r.s.bad /\ cfg.kind = "knn" /\ ~r.out.e =>
       \A t \in 1..Len(r.out.y) : \A l \in Labels(s.data) :
          (cfg.k >= Len(s.data) /\ 2 * Cardinality(Idx(s.data, l)) > Len(s.data)) => r.out.y[t].any = {l}
=============================================================================
