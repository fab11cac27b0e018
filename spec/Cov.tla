------------------------------- MODULE Cov -------------------------------
(* Covariance accumulators.  The state is nothing but the data seen since    *)
(* the last result was asked for; every result follows from the definition   *)
(* on that data, so neither cuts into chunks nor earlier data can matter.    *)
EXTENDS Integers, Sequences, TLC

\* cfg: [kind : "cov" | "vart" | "delay" | "cross" | "multi", bias, dt : data
\*       type or "", lag, covs : matrices (multi)]
\* state: bad - unspecified from here on
\* data: pairs of rows <<x, y, w>> that are to be correlated, with weight w
Start(cfg) == [made |-> FALSE, dt |-> "", pairs |-> <<>>, last |-> <<>>, bad |-> FALSE, covs |-> <<>>, two |-> <<>>]
Ok(s) == [s |-> s, out |-> [e |-> FALSE, cov |-> <<>>, avg |-> <<>>, avg2 |-> <<>>, n |-> 0, dt |-> ""]]
Refuse(s) == [s |-> s, out |-> [e |-> TRUE, cov |-> <<>>, avg |-> <<>>, avg2 |-> <<>>, n |-> 0, dt |-> ""]]

RECURSIVE SumF(_, _)
\* f[1] + ... + f[n]
SumF(f, n) == IF n = 0 THEN 0 ELSE f[n] + SumF(f, n - 1)
Sum(f) == SumF(f, Len(f))
Col(m, c) == [t \in 1..Len(m) |-> m[t][c]]
RECURSIVE Dot(_, _, _)
Dot(a, b, n) == IF n = 0 THEN 0 ELSE a[n] * b[n] + Dot(a, b, n - 1)
Mul(a, b) == [i \in 1..Len(a) |-> [j \in 1..Len(b[1]) |-> Dot(a[i], Col(b, j), Len(b))]]
Tr(a) == [j \in 1..Len(a[1]) |-> [i \in 1..Len(a) |-> a[i][j]]]

\* ---- what an update adds ----
X1(p) == [t \in 1..Len(p) |-> p[t][1]]
X2(p) == [t \in 1..Len(p) |-> p[t][2]]
Pairs(cfg, x, y) ==
  CASE cfg.kind = "cov" -> [t \in 1..Len(x) |-> <<x[t], x[t], 1>>]
    [] cfg.kind = "delay" -> [t \in 1..(Len(x) - cfg.lag) |-> <<x[t], x[t + cfg.lag], 1>>]
    [] cfg.kind = "cross" -> [t \in 1..Len(x) |-> <<x[t], y[t], 1>>]

\* time increments: dk "none" (1), "const" (dt[1]), "seq" (one per step, an
\* additional first one is the time since the last sample of the chunk before)
Inc(op, t) == CASE op.dk = "none" -> 1 [] op.dk = "const" -> op.inc[1]
                [] op.dk = "seq" -> op.inc[t + Len(op.inc) - (Len(op.x) - 1)]
Gap(op) == CASE op.dk = "none" -> 1 [] op.dk = "const" -> op.inc[1] [] op.dk = "seq" -> op.inc[1]
\* trapezoid rule: each step stands for its two ends
Steps(op) == [t \in 1..(Len(op.x) - 1) |-> <<op.x[t], op.x[t + 1], Inc(op, t)>>]
Link(s, op) == IF s.last = <<>> THEN <<>>
               ELSE IF op.dk = "seq" THEN IF Len(op.inc) = Len(op.x) THEN <<<<s.last, op.x[1], Gap(op)>>>> ELSE <<>>
               ELSE IF op.td THEN <<<<s.last, op.x[1], Gap(op)>>>> ELSE <<>>

Update(cfg, s, op) ==
  LET dt == IF s.dt = "" THEN op.dt ELSE s.dt
      n == Len(op.x)
  IN CASE cfg.kind = "cross" ->
            IF n # Len(op.y) \/ (s.dt = "" /\ op.dt # op.dt2) THEN Refuse(s)
            ELSE Ok([s EXCEPT !.dt = dt, !.pairs = @ \o Pairs(cfg, op.x, op.y)])
       [] cfg.kind = "delay" ->
            \* the type is that of the first data, even if they are refused
            IF n < cfg.lag + 1 THEN Refuse([s EXCEPT !.dt = dt, !.last = op.x[1]])
            ELSE Ok([s EXCEPT !.dt = dt, !.pairs = @ \o Pairs(cfg, op.x, op.x)])
       [] cfg.kind = "cov" -> Ok([s EXCEPT !.dt = dt, !.pairs = @ \o Pairs(cfg, op.x, op.x)])
       [] cfg.kind = "vart" ->
            IF \/ op.dk = "seq" /\ op.td /\ s.last # <<>> /\ Len(op.inc) = n - 1
               \/ op.dk = "seq" /\ Len(op.inc) \notin {n, n - 1}
               \/ op.dk = "const" /\ op.inc[1] <= 0
            THEN Refuse(s)
            ELSE Ok([s EXCEPT !.dt = dt, !.pairs = @ \o Link(s, op) \o Steps(op), !.last = op.x[n]])

\* ---- results, by definition; fractions are reported times a common factor --
T(p) == Sum([k \in 1..Len(p) |-> p[k][3]])
W1(p, c) == Sum([k \in 1..Len(p) |-> p[k][3] * p[k][1][c]])
W2(p, c) == Sum([k \in 1..Len(p) |-> p[k][3] * p[k][2][c]])
Dims(p, k) == 1..Len(p[1][k])
\* T * (number of deviations products) : sum of (T x - sum x)(T y - sum y) / T
Centered(p) == LET n == T(p) a == [c \in Dims(p, 1) |-> W1(p, c)] b == [c \in Dims(p, 2) |-> W2(p, c)] IN
  [i \in Dims(p, 1) |-> [j \in Dims(p, 2) |->
     Sum([k \in 1..Len(p) |-> p[k][3] * (n * p[k][1][i] - a[i]) * (n * p[k][2][j] - b[j])]) \div n]]
Raw(p) == LET n == T(p) IN
  [i \in Dims(p, 1) |-> [j \in Dims(p, 2) |-> n * Sum([k \in 1..Len(p) |-> p[k][3] * p[k][1][i] * p[k][2][j]])]]
\* trapezoid: each pair is half its first and half its second row (times 4 T^2)
Halves(p) == [k \in 1..(2 * Len(p)) |-> LET q == p[(k + 1) \div 2] r == IF k % 2 = 1 THEN q[1] ELSE q[2] IN <<r, r, q[3]>>]
Undef(p) == [i \in Dims(p, 1) |-> [j \in Dims(p, 2) |-> "*"]]

Fix(cfg, s, op) ==
  LET s2 == [s EXCEPT !.pairs = <<>>, !.last = <<>>]
      p == IF cfg.kind = "vart" THEN Halves(s.pairs) ELSE s.pairs
      c == IF op.center THEN Centered(p) ELSE Raw(p)
      un == cfg.kind # "vart" /\ ~cfg.bias /\ T(p) = 1
  IN IF s.last = <<>> /\ p = <<>> THEN Refuse(s)
     \* no time has passed, or data were only refused
     ELSE IF p = <<>> THEN [s |-> [s EXCEPT !.bad = TRUE], out |-> [e |-> "*", cov |-> "*", avg |-> "*", avg2 |-> "*", n |-> "*", dt |-> "*"]]
     ELSE [s |-> s2, out |-> [e |-> FALSE, dt |-> s.dt, n |-> T(s.pairs),
             cov |-> IF un THEN IF op.A # <<>> THEN [i \in 1..Len(op.A) |-> [j \in 1..Len(op.A) |-> "*"]] ELSE Undef(p)
                     ELSE IF op.A # <<>> THEN Mul(op.A, Mul(c, Tr(op.A))) ELSE c,
             avg |-> [i \in Dims(p, 1) |-> W1(p, i)],
             avg2 |-> IF cfg.kind \in {"delay", "cross"} THEN [i \in Dims(p, 2) |-> W2(p, i)] ELSE <<>>]]

\* ---- several matrices at once (all entries times 64) ----
RECURSIVE Pow(_, _)
Pow(a, n) == IF n = 0 THEN 1 ELSE a * Pow(a, n - 1)
D(covs) == 1..Len(covs[1])
\* a quarter turn (q quarters) in the plane of coordinates i and j
Cos(q) == CASE q % 4 = 0 -> 1 [] q % 4 = 2 -> -1 [] OTHER -> 0
Sin(q) == CASE q % 4 = 1 -> 1 [] q % 4 = 3 -> -1 [] OTHER -> 0
Turn(n, q, i, j) == [a \in 1..n |-> [b \in 1..n |->
    IF <<a, b>> \in {<<i, i>>, <<j, j>>} THEN Cos(q) ELSE IF <<a, b>> = <<i, j>> THEN Sin(q) ELSE IF <<a, b>> = <<j, i>> THEN -Sin(q)
    ELSE IF a = b THEN 1 ELSE 0]]
Map(covs, F(_)) == [k \in 1..Len(covs) |-> F(covs[k])]
Sym(m) == [i \in 1..Len(m) |-> [j \in 1..Len(m) |-> (m[i][j] + m[j][i]) \div 2]]
Swap(k, i, j) == IF k = i THEN j ELSE IF k = j THEN i ELSE k
Multi(s, op) ==
  LET c == s.covs
      n == Len(c[1])
      Put(x) == Ok([s EXCEPT !.covs = x])
  IN CASE op.t = "sym" -> Put(Map(c, Sym))
       [] op.t = "weight" -> IF op.one THEN Put([k \in 1..Len(c) |-> [i \in D(c) |-> [j \in D(c) |-> op.w[1] * c[k][i][j]]]])
                             ELSE IF Len(op.w) # Len(c) THEN Refuse(s)
                             ELSE Put([k \in 1..Len(c) |-> [i \in D(c) |-> [j \in D(c) |-> op.w[k] * c[k][i][j]]]])
       [] op.t = "rotate" -> Put(LET g == Turn(n, op.q, op.i, op.j) IN [k \in 1..Len(c) |-> Mul(Tr(g), Mul(c[k], g))])
       [] op.t = "permute" -> Put([k \in 1..Len(c) |-> [i \in D(c) |-> [j \in D(c) |-> c[k][Swap(i, op.i, op.j)][Swap(j, op.i, op.j)]]]])
       [] op.t = "transform" -> Put([k \in 1..Len(c) |-> Mul(Tr(op.m), Mul(c[k], op.m))])
       [] op.t = "copy" -> Ok([s EXCEPT !.two = c])
       [] op.t = "swap" -> IF s.two = <<>> THEN Ok(s) ELSE Ok([s EXCEPT !.two = c, !.covs = s.two])

Step(cfg, s, op) ==
  CASE op.t = "new" -> Ok([s EXCEPT !.made = TRUE, !.dt = cfg.dt, !.covs = cfg.covs])
    [] op.t = "update" -> Update(cfg, s, op)
    [] op.t = "fix" -> Fix(cfg, s, op)
    [] OTHER -> Multi(s, op)

Sq(m) == \A i \in 1..Len(m) : Len(m[i]) = Len(m)
StepInv(cfg, s, op, r) ==
  /\ (op.t = "fix" /\ ~r.s.bad) => r.s.pairs = <<>> /\ r.s.last = <<>>
  /\ op.t = "fix" /\ ~r.s.bad /\ r.out.e = FALSE /\ op.A = <<>> /\ cfg.kind \in {"cov", "vart"} /\ T(s.pairs) > 1 =>
       /\ Sq(r.out.cov) /\ r.out.cov = Tr(r.out.cov)
       /\ \A i \in 1..Len(r.out.cov) : r.out.cov[i][i] >= 0
  \* the centered matrix does not see where the origin is
  /\ op.t = "fix" /\ ~r.s.bad /\ r.out.e = FALSE /\ op.A = <<>> /\ op.center /\ cfg.kind # "vart" =>
       LET sh == [k \in 1..Len(s.pairs) |-> <<[c \in Dims(s.pairs, 1) |-> s.pairs[k][1][c] + c], s.pairs[k][2], s.pairs[k][3]>>]
       IN Centered(sh) = Centered(s.pairs)
  /\ op.t = "permute" => Multi(r.s, op).s.covs = s.covs
  /\ op.t = "rotate" => Multi(r.s, [op EXCEPT !.q = 4 - @]).s.covs = s.covs
  /\ op.t = "sym" => \A k \in 1..Len(r.s.covs) : r.s.covs[k] = Tr(r.s.covs[k])
=============================================================================
