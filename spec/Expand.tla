------------------------------- MODULE Expand -------------------------------
(* Expansion nodes.  Every column of the result is a product of one function *)
(* per input component (or a given function, or a radial basis function);    *)
(* the spec enumerates the columns from the definition of the family.        *)
EXTENDS Integers, Sequences, FiniteSets, TLC

\* cfg: [kind : "poly" | "quad" | "rec" | "norm" | "general" | "rbf",
\*       deg, fam : "standard_poly" | "legendre_poly" | "legendre_rational" |
\*       "chebyshev_poly", with0, check, funcs : sequence of names,
\*       i : input dimension or 0, dt : data type or "",
\*       centers, sizes (scalars), covs, invs (matrices and inverses), one]
\* Results are fractions: op.scale is a common denominator per row, out.y the numerators
Start(cfg) == [made |-> FALSE, i |-> 0, dt |-> "", lo |-> <<>>, hi |-> <<>>, train |-> "no", o |-> 0, bad |-> FALSE]
Out(e, y) == [e |-> e, y |-> y]
Ok(s) == [s |-> s, out |-> Out(FALSE, <<>>)]
Refuse(s) == [s |-> s, out |-> Out(TRUE, <<>>)]
Free(s) == [s |-> [s EXCEPT !.bad = TRUE], out |-> "*"]

RECURSIVE Cat(_), Pow(_, _), Sum(_), Prod(_)
Cat(q) == IF q = <<>> THEN <<>> ELSE q[1] \o Cat(Tail(q))
Pow(a, n) == IF n = 0 THEN 1 ELSE a * Pow(a, n - 1)
Sum(q) == IF q = <<>> THEN 0 ELSE q[1] + Sum(Tail(q))
Prod(q) == IF q = <<>> THEN 1 ELSE q[1] * Prod(Tail(q))
Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b

RECURSIVE Binom(_, _)
Binom(n, k) == IF k = 0 THEN 1 ELSE IF n = 0 THEN 0 ELSE Binom(n - 1, k) + Binom(n - 1, k - 1)

\* ---- which products, in which order: vectors of exponents ----
Unit(n, v, d) == [k \in 1..n |-> IF k = v THEN d ELSE 0]
Add(a, b) == [k \in 1..Len(a) |-> a[k] + b[k]]
RECURSIVE Mono(_, _, _)
\* all of degree d in the variables lo..n, smallest variables first
Mono(n, d, lo) == IF d = 0 THEN <<[k \in 1..n |-> 0]>>
                  ELSE Cat([j \in 1..(n - lo + 1) |-> LET m == Mono(n, d - 1, lo + j - 1)
                                                      IN [k \in 1..Len(m) |-> Add(m[k], Unit(n, lo + j - 1, 1))]])
PolyCols(n, deg) == Cat([d \in 1..deg |-> Mono(n, d, 1)])

\* recursive expansions: each variable alone, then breadth first: a block of
\* products is multiplied with all orders of all variables in front of it
RECURSIVE Bfs(_, _, _)
Bfs(n, deg, todo) ==
  IF todo = <<>> THEN <<>>
  ELSE LET b == todo[1].b
           top == todo[1].d
           new == Cat([v \in 1..(todo[1].v - 1) |-> [d \in 1..(deg - top) |->
                       [b |-> [k \in 1..(deg + 1 - top - d) |-> Add(b[k], Unit(n, v, d))], v |-> v, d |-> top + d]]])
       IN Cat([j \in 1..Len(new) |-> new[j].b]) \o Bfs(n, deg, Tail(todo) \o SelectSeq(new, LAMBDA x : Len(x.b) > 1))
Singles(n, v, deg) == [d \in 1..deg |-> Unit(n, v, d)]
RecCols(n, deg, with0) ==
  (IF with0 THEN <<Unit(n, 1, 0)>> ELSE <<>>)
  \o Cat([v \in 1..n |-> Singles(n, v, deg)])
  \o (IF deg < 2 THEN <<>> ELSE Bfs(n, deg, [v \in 1..Max2(n - 1, 0) |-> [b |-> Singles(n, v + 1, deg), v |-> v + 1, d |-> 1]]))

Cols(cfg, n) == CASE cfg.kind = "poly" -> PolyCols(n, cfg.deg)
                  [] cfg.kind = "quad" -> PolyCols(n, 2)
                  [] cfg.kind \in {"rec", "norm"} -> RecCols(n, cfg.deg, cfg.with0)

\* ---- the functions of one component a/b, times b^n (Legendre: times (2b)^n)
RECURSIVE Cheb(_, _, _), Leg(_, _, _)
Cheb(a, b, n) == IF n = 0 THEN 1 ELSE IF n = 1 THEN a ELSE 2 * a * Cheb(a, b, n - 1) - b * b * Cheb(a, b, n - 2)
Leg(a, b, n) == IF n = 0 THEN 1 ELSE IF n = 1 THEN 2 * a
                ELSE (((2 * n - 1) * 2 * a * Leg(a, b, n - 1)) - ((n - 1) * 4 * b * b * Leg(a, b, n - 2))) \div n
Num(fam, a, b, n) == CASE fam \in {"standard_poly", "own_box", "own_neg"} -> Pow(a, n)
                       [] fam = "chebyshev_poly" -> Cheb(a, b, n)
                       [] fam = "legendre_poly" -> Leg(a, b, n)
                       [] fam = "legendre_rational" -> Leg(a - b, a + b, n)
Den(fam, a, b, n) == CASE fam \in {"standard_poly", "chebyshev_poly", "own_box", "own_neg"} -> Pow(b, n)
                       [] fam = "legendre_poly" -> Pow(2 * b, n)
                       [] fam = "legendre_rational" -> Pow(2 * (a + b), n)
\* x: sequence of fractions <<a, b>>
Col(fam, x, e, scale) == (scale \div Prod([k \in 1..Len(x) |-> Den(fam, x[k][1], x[k][2], e[k])]))
                         * Prod([k \in 1..Len(x) |-> Num(fam, x[k][1], x[k][2], e[k])])
Whole(x) == [k \in 1..Len(x) |-> <<x[k], 1>>]

\* ---- domains: 0 stands for "unbounded", bounds are those of the families ----
Bounded(fam) == fam \in {"legendre_poly", "chebyshev_poly", "own_box"}
\* own_*: tuples supplied by the user; own_box is [0, 4], own_neg (-inf, 0]
Lower(fam) == IF fam = "own_box" THEN 0 ELSE -1
Upper(fam) == IF fam = "own_box" THEN 4 ELSE 1
HalfLine(fam) == fam = "legendre_rational"                           \* [0, inf)
InDomain(fam, x) == CASE Bounded(fam) -> (Lower(fam) * x[2] <= x[1]) /\ (x[1] <= Upper(fam) * x[2])
                      [] fam = "own_neg" -> x[1] <= 0
                      [] HalfLine(fam) -> 0 <= x[1]
                      [] OTHER -> TRUE
\* the transformation learned from the data: lo, hi are the extremes per column
SetMin(q) == CHOOSE v \in {q[k] : k \in 1..Len(q)} : \A k \in 1..Len(q) : v <= q[k]
SetMax(q) == CHOOSE v \in {q[k] : k \in 1..Len(q)} : \A k \in 1..Len(q) : v >= q[k]
Normal(cfg, s, x) ==
  IF cfg.kind # "norm" THEN Whole(x)
  ELSE IF HalfLine(cfg.fam) THEN [k \in 1..Len(x) |-> <<x[k] - Min2(s.lo[k], 0), 1>>]
  ELSE IF cfg.fam = "own_neg" THEN [k \in 1..Len(x) |-> <<x[k] - Max2(s.hi[k], 0), 1>>]
  ELSE IF ~Bounded(cfg.fam) THEN Whole(x)
  ELSE LET lo == SetMin(s.lo) hi == SetMax(s.hi) L == Lower(cfg.fam) U == Upper(cfg.fam) IN
       IF hi < U /\ lo > L THEN Whole(x)
       \* the middle of the data goes to the middle of the domain; scaled down if they do not fit
       ELSE [k \in 1..Len(x) |-> IF hi - lo < U - L THEN <<((2 * x[k]) - (lo + hi)) + (L + U), 2>>
                                 ELSE <<(((2 * x[k]) - (lo + hi)) * ((U - L) \div 2)) + (((L + U) \div 2) * (hi - lo)), hi - lo>>]

\* ---- given functions ----
Func(f, x) == CASE f = "id" -> x
                [] f = "sq" -> [k \in 1..Len(x) |-> x[k] * x[k]]
                [] f = "norm" -> <<Sum([k \in 1..Len(x) |-> x[k] * x[k]])>>
                [] f = "one" -> <<1, 1>>
                [] f = "ends" -> <<x[1] - x[Len(x)]>>
                [] f = "none" -> <<>>
General(cfg, x) == Cat([j \in 1..Len(cfg.funcs) |-> Func(cfg.funcs[j], x)])

\* ---- radial basis functions exp(-q/2): the exponents q ----
Diff(x, c) == [k \in 1..Len(x) |-> x[k] - c[k]]
Quad(v, m) == Sum([i \in 1..Len(v) |-> v[i] * Sum([j \in 1..Len(v) |-> m[i][j] * v[j]])])
Rbf(cfg, x, scale) == [j \in 1..Len(cfg.centers) |->
  LET v == Diff(x, cfg.centers[j]) IN
  IF cfg.covs = <<>> THEN (scale * Sum([k \in 1..Len(v) |-> v[k] * v[k]])) \div cfg.sizes[IF cfg.one THEN 1 ELSE j]
  ELSE LET m == cfg.invs[IF cfg.one THEN 1 ELSE j] IN (scale * Quad(v, m.m)) \div m.d]
RbfOk(cfg) == LET n == IF cfg.covs = <<>> THEN Len(cfg.sizes) ELSE Len(cfg.covs)
              IN /\ cfg.one \/ n = Len(cfg.centers)
                 /\ \A k \in 1..Len(cfg.covs) : Len(cfg.covs[k]) = Len(cfg.centers[1])
MatMul(a, b) == [i \in 1..Len(a) |-> [j \in 1..Len(a) |-> Sum([k \in 1..Len(a) |-> a[i][k] * b[k][j]])]]
\* the configuration really contains inverses: cov * inv = d
InvOk(cfg) == \A k \in 1..Len(cfg.covs) : MatMul(cfg.covs[k], cfg.invs[k].m) =
                [i \in 1..Len(cfg.covs[k]) |-> [j \in 1..Len(cfg.covs[k]) |-> IF i = j THEN cfg.invs[k].d ELSE 0]]

OutDim(cfg, n) == CASE cfg.kind = "general" -> Len(General(cfg, [k \in 1..n |-> 0]))
                    [] cfg.kind = "rbf" -> Len(cfg.centers)
                    [] OTHER -> Len(Cols(cfg, n))
Row(cfg, s, x, scale) ==
  CASE cfg.kind = "general" -> [k \in 1..Len(General(cfg, x)) |-> scale * General(cfg, x)[k]]
    [] cfg.kind = "rbf" -> Rbf(cfg, x, scale)
    [] OTHER -> LET c == Cols(cfg, Len(x)) n == Normal(cfg, s, x)
                    fam == IF cfg.kind \in {"poly", "quad"} THEN "standard_poly" ELSE cfg.fam
                IN [k \in 1..Len(c) |-> Col(fam, n, c[k], scale)]

\* x: [x : rows, cols, dt]
Fixed(s, x) == [s EXCEPT !.i = IF @ = 0 THEN x.cols ELSE @, !.dt = IF @ = "" THEN x.dt ELSE @]
Fits(s, x) == x.cols = s.i /\ Len(x.x) > 0
Stop(s) == [s EXCEPT !.train = IF @ = "no" THEN "no" ELSE "done"]

Execute(cfg, s, op) ==
  LET s1 == Stop(s)
      s2 == Fixed(s1, op.x)
      inside == \A t \in 1..Len(op.x.x) : \A k \in 1..Len(op.x.x[t]) : InDomain(cfg.fam, Normal(cfg, s2, op.x.x[t])[k])
  IN CASE cfg.kind = "norm" /\ s.train = "new" -> Free(s)
       [] ~Fits(s2, op.x) -> Refuse(s2)
       [] OTHER -> IF cfg.kind \in {"rec", "norm"} /\ cfg.check /\ ~inside THEN Refuse(s2)
                   ELSE [s |-> s2, out |-> Out(FALSE, [t \in 1..Len(op.x.x) |-> Row(cfg, s2, op.x.x[t], op.scale[t])])]

Train(cfg, s, op) ==
  LET s2 == Fixed(s, op.x)
      rows == op.x.x
      n == Len(rows)
      colOf(k) == [t \in 1..n |-> rows[t][k]]
  IN IF cfg.kind # "norm" \/ s.train = "done" THEN Refuse(s)
     ELSE IF ~Fits(s2, op.x) THEN Refuse(s2)
     ELSE Ok([s2 EXCEPT !.train = "on",
                !.lo = [k \in 1..op.x.cols |-> IF s.lo = <<>> THEN SetMin(colOf(k)) ELSE Min2(s.lo[k], SetMin(colOf(k)))],
                !.hi = [k \in 1..op.x.cols |-> IF s.hi = <<>> THEN SetMax(colOf(k)) ELSE Max2(s.hi[k], SetMax(colOf(k)))]])

Step0(cfg, s, op) ==
  CASE op.t = "new" ->
         IF cfg.kind = "rbf" /\ ~RbfOk(cfg) THEN [Refuse(s) EXCEPT !.s.bad = TRUE]
         ELSE Ok([s EXCEPT !.made = TRUE, !.dt = cfg.dt, !.train = IF cfg.kind = "norm" THEN "new" ELSE "no",
                           !.i = IF cfg.kind = "rbf" THEN Len(cfg.centers[1]) ELSE cfg.i])
    [] op.t = "execute" -> Execute(cfg, s, op)
    [] op.t = "train" -> Train(cfg, s, op)
    [] op.t = "stop" -> IF s.train = "on" THEN Ok(Stop(s)) ELSE Refuse(s)
    [] op.t = "inverse" -> Refuse(s)
    [] op.t = "setin" -> IF s.i \notin {0, op.n} THEN Refuse(s) ELSE Ok([s EXCEPT !.i = op.n])
    [] op.t = "setout" -> IF s.i # 0 /\ OutDim(cfg, s.i) = op.n THEN Free(s) ELSE Refuse(s)
    \* the number of monomials of degree d, and of degree one to d
    [] op.t = "count" -> [s |-> s, out |-> Out(FALSE, <<<<Binom(op.n + op.d - 1, op.d), Binom(op.n + op.d, op.d) - 1>>>>)]

\* the output dimension is announced as soon as the input dimension is known
Step(cfg, s, op) == LET r == Step0(cfg, s, op) IN [r EXCEPT !.s.o = IF r.s.i = 0 THEN 0 ELSE OutDim(cfg, r.s.i)]

Distinct(q) == Cardinality({q[k] : k \in 1..Len(q)}) = Len(q)
StepInv(cfg, s, op, r) ==
  /\ op.t = "new" => InvOk(cfg)
  /\ op.t = "execute" /\ ~r.s.bad =>
       (~r.out.e => \A t \in 1..Len(r.out.y) : Len(r.out.y[t]) = OutDim(cfg, r.s.i))
  \* every product of total degree up to deg exactly once
  /\ r.s.i # 0 /\ s.i = 0 /\ cfg.kind \in {"poly", "quad", "rec", "norm"} =>
       LET c == Cols(cfg, r.s.i)
           deg == IF cfg.kind = "quad" THEN 2 ELSE cfg.deg
       IN /\ Distinct(c)
          /\ {c[k] : k \in 1..Len(c)} = {e \in [1..r.s.i -> 0..deg] :
                Sum([k \in 1..r.s.i |-> e[k]]) \in (IF cfg.kind \in {"rec", "norm"} /\ cfg.with0 THEN 0 ELSE 1)..deg}
          /\ Len(c) = Binom(r.s.i + deg, deg) - (IF cfg.kind \in {"rec", "norm"} /\ cfg.with0 THEN 0 ELSE 1)
  /\ op.t = "count" => \A k \in 1..1 : r.out.y[1][1] = Len(Mono(op.n, op.d, 1)) /\ r.out.y[1][2] = Len(PolyCols(op.n, op.d))
=============================================================================
