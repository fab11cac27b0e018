------------------------------ MODULE Analyse ------------------------------
(* Nodes that analyse or filter what they see: hit parades, eta values,      *)
(* histograms, fixed and learned cutoffs, injected noise, identity.          *)
EXTENDS Integers, Sequences, FiniteSets, TLC

\* cfg: [kind : "hit" | "eta" | "hist" | "file" | "adaptive" | "cutoff" | "noise" | "ident",
\*       n, gap : size and gap of a hit parade, i : 0 or input dim, dt : data type or "",
\*       lo, hi : quarters of the data to cut off, or bounds; 99 for none,
\*       mul : multiplicative noise]
None == 99
Start(cfg) == [made |-> FALSE, i |-> 0, dt |-> "", train |-> "no", hist |-> <<>>, chunks |-> <<>>, bad |-> FALSE]
Out(e, y) == [e |-> e, y |-> y]
Ok(s) == [s |-> s, out |-> Out(FALSE, <<>>)]
Refuse(s) == [s |-> s, out |-> Out(TRUE, <<>>)]
Free(s) == [s |-> [s EXCEPT !.bad = TRUE], out |-> "*"]
Give(s, y) == [s |-> s, out |-> Out(FALSE, y)]

RECURSIVE Sum(_), Gcd(_, _)
Sum(q) == IF q = <<>> THEN 0 ELSE q[1] + Sum(Tail(q))
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
Min2(a, b) == IF a < b THEN a ELSE b
Col(rows, c) == [t \in 1..Len(rows) |-> rows[t][c]]

\* ---- hit parade of the largest values; sg = -1 for the smallest.           ----
\* hits: sequence of <<value, time>> in the order in which they came.  A value
\* larger than the smallest hit (of a full list) becomes a hit if it comes more than
\* gap after the latest one; within the gap it can only take its place.
SmallestOf(h) == CHOOSE k \in 1..Len(h) : /\ \A j \in 1..Len(h) : h[k][1] <= h[j][1]
                                          /\ \A j \in 1..(k - 1) : h[k][1] < h[j][1]
Without(h, k) == SubSeq(h, 1, k - 1) \o SubSeq(h, k + 1, Len(h))
\* Which of several smallest hits makes room is not said: their times are unsure then.
Unsure(h, k) == IF \E j \in 1..Len(h) : j # k /\ h[j][1] = h[k][1]
                THEN [j \in 1..Len(h) |-> IF h[j][1] = h[k][1] THEN <<h[j][1], h[j][2], TRUE>> ELSE h[j]] ELSE h
Enter(n, gap, h, v, t) ==
  LET full == Len(h) >= n
      last == IF h = <<>> THEN <<>> ELSE h[Len(h)]
  IN IF full /\ v <= h[SmallestOf(h)][1] THEN h
     ELSE IF h = <<>> THEN <<<<v, t, FALSE>>>>
     ELSE IF t - last[2] <= gap THEN IF v > last[1] THEN [h EXCEPT ![Len(h)] = <<v, t, FALSE>>] ELSE h
     ELSE Append(IF full THEN Without(Unsure(h, SmallestOf(h)), SmallestOf(h)) ELSE h, <<v, t, FALSE>>)
RECURSIVE Hits(_, _, _, _)
Hits(n, gap, q, t) == IF t = 0 THEN <<>> ELSE Enter(n, gap, Hits(n, gap, q, t - 1), q[t], t - 1)
\* sorted by falling value, then time
RECURSIVE Sorted(_)
Sorted(h) == IF h = <<>> THEN <<>>
             ELSE LET k == CHOOSE k \in 1..Len(h) : \A j \in 1..Len(h) : h[k][1] > h[j][1] \/ (h[k][1] = h[j][1] /\ h[k][2] <= h[j][2])
                  IN <<h[k]>> \o Sorted(Without(h, k))
Neg(q) == [t \in 1..Len(q) |-> -q[t]]
Maxima(cfg, s, c) == Sorted(Hits(cfg.n, cfg.gap, Col(s.hist, c), Len(s.hist)))
Minima(cfg, s, c) == LET h == Sorted(Hits(cfg.n, cfg.gap, Neg(Col(s.hist, c)), Len(s.hist))) IN [k \in 1..Len(h) |-> <<-h[k][1], h[k][2], h[k][3]>>]
Shown(h) == [k \in 1..Len(h) |-> <<h[k][1], IF \E j \in 1..Len(h) : h[j][1] = h[k][1] /\ h[j][3] THEN "*" ELSE h[k][2]>>]
Parade(cfg, s, F(_, _, _)) == [c \in 1..s.i |-> Shown(F(cfg, s, c))]

\* ---- eta: (2 pi eta / t)^2 is a fraction ----
EtaParts(s, c) ==
  LET all(f(_)) == Sum([k \in 1..Len(s.chunks) |-> f(Col(s.chunks[k], c))])
      T == Sum([k \in 1..Len(s.chunks) |-> Len(s.chunks[k]) - 1])
      sx == all(LAMBDA q : Sum([t \in 1..(Len(q) - 1) |-> q[t]]))
      sxx == all(LAMBDA q : Sum([t \in 1..(Len(q) - 1) |-> q[t] * q[t]]))
      dd == all(LAMBDA q : Sum([t \in 1..(Len(q) - 1) |-> (q[t + 1] - q[t]) * (q[t + 1] - q[t])]))
  IN <<dd * (T - 1), (T * sxx) - (sx * sx)>>
EtaOk(s) == Sum([k \in 1..Len(s.chunks) |-> Len(s.chunks[k]) - 1]) > 1 /\ \A c \in 1..s.i : EtaParts(s, c)[2] # 0
Reduced(p) == LET g == Gcd(p[2], p[1]) IN <<p[1] \div g, p[2] \div g>>
Eta(s) == [c \in 1..s.i |-> Reduced(EtaParts(s, c))]

\* ---- cutoffs ----
RECURSIVE Sort(_)
Sort(q) == IF q = <<>> THEN <<>>
           ELSE LET k == CHOOSE k \in 1..Len(q) : \A j \in 1..Len(q) : q[k] <= q[j] IN <<q[k]>> \o Sort(SubSeq(q, 1, k - 1) \o SubSeq(q, k + 1, Len(q)))
Lower(cfg, s, c) == IF cfg.lo = 0 THEN None ELSE Sort(Col(s.hist, c))[((cfg.lo * Len(s.hist)) \div 4) + 1]
Upper(cfg, s, c) == IF cfg.hi = 0 THEN None ELSE Sort(Col(s.hist, c))[Len(s.hist) - ((cfg.hi * Len(s.hist)) \div 4)]
Clip(v, lo, hi) == LET a == IF lo # None /\ v < lo THEN lo ELSE v IN IF hi # None /\ a > hi THEN hi ELSE a
Filter(cfg, s, row) ==
  [c \in 1..Len(row) |->
     CASE cfg.kind = "cutoff" -> Clip(row[c], cfg.lo, cfg.hi)
       [] cfg.kind = "adaptive" -> Clip(row[c], Lower(cfg, s, c), Upper(cfg, s, c))
       \* the noise is 2 times the number of the column
       [] cfg.kind = "noise" -> IF cfg.mul THEN row[c] * (1 + 2 * c) ELSE row[c] + 2 * c
       [] OTHER -> row[c]]

\* ---- life ----
Trainable(cfg) == cfg.kind \notin {"cutoff", "noise", "ident"}
Invertible(cfg) == cfg.kind \in {"hit", "eta", "hist", "file", "adaptive", "ident"}
Fixed(s, x) == [s EXCEPT !.i = IF @ = 0 THEN x.cols ELSE @, !.dt = IF @ = "" THEN x.dt ELSE @]
Fits(s, x) == x.cols = s.i /\ Len(x.x) > 0
Stop(cfg, s) == IF s.train # "on" THEN Refuse(s)
                ELSE IF cfg.kind = "eta" /\ ~EtaOk(s) THEN [Ok(s) EXCEPT !.s.train = "done", !.s.bad = TRUE, !.out = "*"]
                ELSE Ok([s EXCEPT !.train = "done"])
Ask(cfg, s, y(_)) == LET r == IF s.train \in {"new", "on"} THEN Stop(cfg, s) ELSE Ok(s) IN IF r.s.bad THEN r ELSE IF r.out.e THEN r ELSE Give(r.s, y(r.s))

Train(cfg, s, op) ==
  LET s2 == Fixed(s, op.x) IN
  IF s.train \notin {"new", "on"} THEN Refuse(s)
  ELSE IF ~Fits(s2, op.x) THEN Refuse(s2)
  ELSE Ok([s2 EXCEPT !.train = "on", !.hist = @ \o op.x.x, !.chunks = Append(@, op.x.x)])
\* a node that has seen nothing is trained with what it is to process
Execute(cfg, s, op) ==
  LET r0 == IF s.train = "new" THEN Train(cfg, s, op) ELSE Ok(s)
      r == IF r0.out.e THEN r0 ELSE IF r0.s.train = "on" THEN Stop(cfg, r0.s) ELSE r0
      s2 == Fixed(r.s, op.x)
  IN IF r.s.bad THEN r ELSE IF r.out.e THEN r
     ELSE IF ~Fits(s2, op.x) THEN Refuse(s2)
     ELSE Give(s2, [t \in 1..Len(op.x.x) |-> Filter(cfg, s2, op.x.x[t])])

Step(cfg, s, op) ==
  CASE op.t = "new" -> Ok([s EXCEPT !.made = TRUE, !.i = cfg.i, !.dt = cfg.dt, !.train = IF Trainable(cfg) THEN "new" ELSE "no"])
    [] op.t = "train" -> Train(cfg, s, op)
    [] op.t = "stop" -> Stop(cfg, s)
    [] op.t = "execute" -> Execute(cfg, s, op)
    [] op.t = "maxima" -> Ask(cfg, s, LAMBDA z : Parade(cfg, z, Maxima))
    [] op.t = "minima" -> Ask(cfg, s, LAMBDA z : Parade(cfg, z, Minima))
    [] op.t = "eta" -> Ask(cfg, s, Eta)

StepInv(cfg, s, op, r) ==
  /\ op.t = "maxima" /\ ~r.s.bad => (~r.out.e =>
       \A c \in 1..s.i : LET h == Maxima(cfg, s, c) IN
         /\ Len(h) \in 1..cfg.n /\ Len(r.out.y[c]) = Len(h)
         \* real values at their times, the largest one among them, gaps kept
         /\ \A k \in 1..Len(h) : s.hist[h[k][2] + 1][c] = h[k][1]
         /\ \A t \in 1..Len(s.hist) : s.hist[t][c] <= h[1][1]
         /\ \A j, k \in 1..Len(h) : j # k => h[j][2] - h[k][2] > cfg.gap \/ h[k][2] - h[j][2] > cfg.gap)
  /\ op.t = "minima" /\ ~r.s.bad => (~r.out.e =>
       \A c \in 1..s.i : \A t \in 1..Len(s.hist) : s.hist[t][c] >= r.out.y[c][1][1])
  \* as much is cut off as was asked for: at most that many samples lie beyond each bound
  /\ op.t = "execute" /\ cfg.kind = "adaptive" /\ ~r.s.bad => (~r.out.e =>
       \A c \in 1..r.s.i : LET q == Sort(Col(r.s.hist, c)) n == Len(q)
                               lo == Lower(cfg, r.s, c) hi == Upper(cfg, r.s, c) IN
         /\ lo # None => (Cardinality({t \in 1..n : q[t] < lo}) * 4 <= cfg.lo * n /\ Cardinality({t \in 1..n : q[t] <= lo}) * 4 > cfg.lo * n)
         /\ hi # None => (Cardinality({t \in 1..n : q[t] > hi}) * 4 <= cfg.hi * n /\ Cardinality({t \in 1..n : q[t] >= hi}) * 4 > cfg.hi * n))
=============================================================================
