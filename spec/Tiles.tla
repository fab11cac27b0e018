-------------------------------- MODULE Tiles --------------------------------
(* Two-dimensional switchboards of mdp.hinet and the switchboard factory.    *)
(* A pixel is a channel of ch connections; the image is stored row by row.   *)
(* State: [has, sb]: the switchboard built last, from which the factory      *)
(* builds the next one.                                                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Max(S) == CHOOSE v \in S : \A w \in S : w <= v
Abs(n) == IF n < 0 THEN -n ELSE n
\* the connections of a list of channels, ch connections each
Spread(chans, ch) == [k \in 1..(Len(chans) * ch) |-> chans[(k - 1) \div ch + 1] * ch + ((k - 1) % ch)]
\* concatenation of f[0], .., f[n - 1], each of length len
Join(n, len, f(_)) == [k \in 1..(n * len) |-> f((k - 1) \div len)[((k - 1) % len) + 1]]
\* pixels of the w x h rectangle at (x, y) of an image of width W
Box(x, y, w, h, W) == [k \in 1..(w * h) |-> (y + (k - 1) \div w) * W + x + ((k - 1) % w)]

None == [k |-> ""]
Err == [e |-> TRUE, sb |-> None]
Made(k, in, och, ich, chans, out, unused, long) ==
  [e |-> FALSE, sb |-> [k |-> k, in |-> in, con |-> Spread(chans, ich), och |-> och, ich |-> ich,
                        n |-> (Len(chans) * ich) \div och, out |-> out, unused |-> unused, long |-> long]]
Left(a, f, sp) == [i \in 1..2 |-> (a[i] - f[i]) % sp[i]]
Rect(p) ==
  LET a == p.xy
      f == p.f
      sp == p.sp
      u == Left(a, f, sp)
      out == [i \in 1..2 |-> (a[i] - f[i]) \div sp[i] + 1]
      field(k) == Box((k % out[1]) * sp[1], (k \div out[1]) * sp[2], f[1], f[2], a[1])
  IN IF f[1] > a[1] \/ f[2] > a[2] THEN Err
     ELSE IF ~p.ign /\ u # <<0, 0>> THEN Err
     ELSE Made("rect", a[1] * a[2] * p.ch, f[1] * f[2] * p.ch, p.ch,
               Join(out[1] * out[2], f[1] * f[2], field), out, u, <<>>)
DRect(p) ==
  LET a == p.xy
      f == p.f
      h == [i \in 1..2 |-> f[i] \div 2]
      u == Left(a, f, h)
      l == [i \in 1..2 |-> a[i] \div f[i]]
      w == l[1] - 1
      long(k) == Box((k % l[1]) * f[1], (k \div l[1]) * f[2], f[1], f[2], a[1])
      short(k) == Box((k % w) * f[1] + h[1], (k \div w) * f[2] + h[2], f[1], f[2], a[1])
      nl == l[1] * l[2]
      field(k) == IF k < nl THEN long(k) ELSE short(k - nl)
  IN IF \E i \in 1..2 : f[i] % 2 # 0 \/ f[i] > a[i] THEN Err
     ELSE IF (~p.ign /\ u # <<0, 0>>) \/ \E i \in 1..2 : a[i] % f[i] >= h[i] THEN Err
     ELSE Made("drect", a[1] * a[2] * p.ch, f[1] * f[2] * p.ch, p.ch,
               Join(nl + w * (l[2] - 1), f[1] * f[2], field), <<>>, u, l)
\* The rhombic lattice in half steps: the long channel (x, y) lies at
\* (2x, 2y), the short one at (2x + 1, 2y + 1).  A field is a diamond.
Rhomb(p) ==
  LET X == p.xy[1]
      Y == p.xy[2]
      g == p.d
      tall == X < Y           \* which border is cut away
      rx == IF tall THEN X - g ELSE X - 1 - g
      ry == IF tall THEN Y - 1 - g ELSE Y - g
      out == <<(2 * rx) \div g + 1, (2 * ry) \div g + 1>>
      idx(px, py) == IF py % 2 = 0 THEN (py \div 2) * X + px \div 2
                     ELSE X * Y + (py \div 2) * (X - 1) + px \div 2
      center(k) == LET i == k % out[1]
                       j == k \div out[1]
                   IN IF tall THEN <<(1 + i) * g - 1, j * g + g>> ELSE <<(1 + i) * g, j * g + g - 1>>
      pts(k) == {q \in (0..(2 * X - 2)) \X (0..(2 * Y - 2)) :
                   /\ (q[1] + q[2]) % 2 = 0
                   /\ Abs(q[1] - center(k)[1]) + Abs(q[2] - center(k)[2]) <= g - 1}
      before(q, r) == q[2] < r[2] \/ (q[2] = r[2] /\ q[1] < r[1])
      field(k) == LET P == TLCEval(pts(k))
                      nth(n) == CHOOSE q \in P : Cardinality({r \in P : before(r, q)}) = n - 1
                  IN [n \in 1..(g * g) |-> idx(nth(n)[1], nth(n)[2])]
      \* evaluate every field once
      all == TLCEval([k \in 0..(out[1] * out[2] - 1) |-> field(k)])
      get(k) == all[k]
  IN IF g % 2 # 0 \/ g < 2 THEN Err
     ELSE IF rx < 0 \/ ry < 0 \/ rx % (g \div 2) # 0 \/ ry % (g \div 2) # 0 THEN Err
     ELSE Made("rhomb", (X * Y + (X - 1) * (Y - 1)) * p.ch, g * g * p.ch, p.ch,
               Join(out[1] * out[2], g * g, get), out, <<>>, p.xy)
\* a channel switchboard merging everything into one channel
Merge(n, prev) == Made("chan", n, n, n \div prev.n, [k \in 1..prev.n |-> k - 1], <<>>, <<>>, <<>>)
Fits(k, prev) == CASE k = "chan" -> TRUE
                   [] k = "rhomb" -> prev.k = "drect"
                   [] OTHER -> prev.k \in {"rect", "rhomb"}
\* p.m: dimension of each output channel of the previous layer
NextOf(prev, p) ==
  LET q == [xy |-> IF p.k = "rhomb" THEN prev.long ELSE prev.out, ch |-> p.m]
  IN IF ~Fits(p.k, prev) THEN Err
     ELSE CASE p.k = "chan" -> Merge(prev.n * p.m, prev)
            [] p.k = "rect" -> Rect(q @@ [f |-> p.f, sp |-> p.sp, ign |-> p.ign])
            [] p.k = "drect" -> DRect(q @@ [f |-> p.f, ign |-> p.ign])
            [] p.k = "rhomb" -> Rhomb(q @@ [d |-> p.d])

Start(cfg) == [has |-> FALSE, sb |-> None]
R(s, r) == [s |-> IF r.e THEN s ELSE [has |-> TRUE, sb |-> r.sb], out |-> [e |-> r.e, y |-> <<>>]]
In(v, n) == v >= 0 /\ v < n
\* coordinates: (x, y) -> index, and the index n back to (x, y)
Coord(op) == [e |-> FALSE, y |-> <<IF In(op.x, op.xy[1]) /\ In(op.y, op.xy[2]) THEN op.y * op.xy[1] + op.x ELSE -1>>
                                 \o (IF In(op.n, op.xy[1] * op.xy[2]) THEN <<op.n % op.xy[1], op.n \div op.xy[1]>> ELSE <<-1, -1>>)]
Step(cfg, s, op) ==
  CASE op.t = "image" -> R(s, Rect([xy |-> op.xy, f |-> <<1, 1>>, sp |-> <<1, 1>>, ch |-> 1, ign |-> FALSE]))
    [] op.t = "rect" -> R(s, Rect(op))
    [] op.t = "drect" -> R(s, DRect(op))
    [] op.t = "rhomb" -> R(s, Rhomb(op))
    [] op.t = "next" -> R(s, NextOf(s.sb, op))
    [] op.t = "coord" -> [s |-> s, out |-> Coord(op)]
\* what the documentation promises about the coverage
Hits(sb, c) == Cardinality({k \in DOMAIN sb.con : sb.con[k] = c})
StepInv(cfg, s, op, r) ==
  LET sb == r.s.sb IN
  (op.t # "coord" /\ ~r.out.e) =>
    /\ \A k \in DOMAIN sb.con : sb.con[k] >= 0 /\ sb.con[k] < sb.in
    /\ (op.t = "rect" /\ ~op.ign /\ op.sp[1] <= op.f[1] /\ op.sp[2] <= op.f[2]) => \A c \in 0..(sb.in - 1) : Hits(sb, c) > 0
    /\ (op.t = "drect") => \A c \in 0..(sb.in - 1) : Hits(sb, c) <= 2
    /\ (op.t = "rhomb") => \A c \in 0..(sb.in - 1) : Hits(sb, c) <= 2
=============================================================================
