------------------------------- MODULE Delay -------------------------------
(* TimeFramesNode, TimeDelayNode and TimeDelaySlidingWindowNode: every output *)
(* row lines a sample up with the samples gap, 2 gap, ... later (earlier).    *)
EXTENDS Integers, Sequences, TLC

\* cfg: [kind : "frames" | "delay" | "slide", tf, gap : positive, i : input
\*       dimension or 0, dt : data type or ""]
Supp == {"f4", "f8", "i4", "i8", "u1"}
Start(cfg) == [made |-> FALSE, i |-> 0, dt |-> "", hist |-> <<>>]
Ret(s, y) == [s |-> s, out |-> [e |-> FALSE, y |-> y, dt |-> s.dt]]
Refuse(s) == [s |-> s, out |-> [e |-> TRUE, y |-> <<>>, dt |-> ""]]

RECURSIVE Cat(_)
Cat(q) == IF q = <<>> THEN <<>> ELSE q[1] \o Cat(Tail(q))

\* Frames(x)[t] = x[t], x[t + gap], x[t + 2 gap], ...
FramesLen(cfg, x) == Len(x) - (cfg.tf - 1) * cfg.gap
Frames(cfg, x) == [t \in 1..FramesLen(cfg, x) |-> Cat([f \in 1..cfg.tf |-> x[t + (f - 1) * cfg.gap]])]

\* Delays(x)[t] = x[t], x[t - gap], ...; zero before the beginning
Zero(w) == [c \in 1..w |-> 0]
DelayRow(cfg, w, x, t) == Cat([f \in 1..cfg.tf |-> IF t - (f - 1) * cfg.gap >= 1 THEN x[t - (f - 1) * cfg.gap] ELSE Zero(w)])
Delays(cfg, w, x) == [t \in 1..Len(x) |-> DelayRow(cfg, w, x, t)]

\* the signal behind frames y: every sample some frame shows, zero elsewhere
PInv(cfg, w, y) ==
  LET n == Len(y)
      part(t, f) == SubSeq(y[t], (f - 1) * w + 1, f * w)
      shows(t, f) == t - (f - 1) * cfg.gap \in 1..n
  IN [t \in 1..(n + (cfg.tf - 1) * cfg.gap) |->
        IF \E f \in 1..cfg.tf : shows(t, f)
        THEN LET f == CHOOSE f \in 1..cfg.tf : shows(t, f) /\ \A g \in 1..cfg.tf : shows(t, g) => f <= g
             IN part(t - (f - 1) * cfg.gap, f)
        ELSE Zero(w)]

\* x: [x : rows, cols, rank, dt]
Accepts(s, x) == x.rank = 2 /\ s.dt \in Supp /\ x.cols = s.i /\ Len(x.x) > 0
\* what is still unset is taken from the data, even from data that is refused
Fix(s, x) == IF x.rank # 2 THEN s
             ELSE [s EXCEPT !.i = IF @ = 0 THEN x.cols ELSE @, !.dt = IF @ = "" /\ x.dt \in Supp THEN x.dt ELSE @]

Execute(cfg, s, x) ==
  LET s2 == Fix(s, x) IN
  IF ~Accepts(s2, x) THEN Refuse(s2)
  ELSE CASE cfg.kind = "frames" -> IF FramesLen(cfg, x.x) < 0 THEN Refuse(s2) ELSE Ret(s2, Frames(cfg, x.x))
         [] cfg.kind = "delay" -> Ret(s2, Delays(cfg, s2.i, x.x))
         \* one sample per call
         [] cfg.kind = "slide" -> IF Len(x.x) # 1 THEN Refuse(s2)
                                  ELSE LET h == Append(s2.hist, x.x[1])
                                       IN Ret([s2 EXCEPT !.hist = h], <<DelayRow(cfg, s2.i, h, Len(h))>>)

\* only defined for frames the node can have produced: the frames of a signal
Inverse(cfg, s, y) ==
  IF cfg.kind # "frames" \/ s.i = 0 \/ y.rank # 2 \/ y.cols # s.i * cfg.tf THEN Refuse(s)
  ELSE [Ret(s, PInv(cfg, s.i, y.x)) EXCEPT !.out.dt = IF @ = "" THEN "f8" ELSE @]

Step(cfg, s, op) ==
  CASE op.t = "new" -> [s |-> [s EXCEPT !.made = TRUE, !.i = cfg.i, !.dt = cfg.dt], out |-> [e |-> FALSE, y |-> <<>>, dt |-> ""]]
    [] op.t = "execute" -> Execute(cfg, s, op.x)
    [] op.t = "pinv" -> Inverse(cfg, s, op.x)
    [] op.t = "inverse" -> Refuse(s)
    [] op.t = "setin" -> IF s.i \notin {0, op.n} THEN Refuse(s) ELSE [s |-> [s EXCEPT !.i = op.n], out |-> [e |-> FALSE, y |-> <<>>, dt |-> ""]]
    [] op.t = "setout" -> Refuse(s)

StepInv(cfg, s, op, r) ==
  /\ s.made => (s.i # 0 => r.s.i = s.i) /\ (s.dt # "" => r.s.dt = s.dt)
  /\ op.t = "execute" /\ ~r.out.e =>
       /\ \A k \in 1..Len(r.out.y) : Len(r.out.y[k]) = r.s.i * cfg.tf
       \* frames determine the signal
       /\ cfg.kind = "frames" /\ Len(r.out.y) >= cfg.gap => PInv(cfg, r.s.i, r.out.y) = op.x.x
       \* looking back is looking ahead, read backwards
       /\ cfg.kind = "delay" =>
            LET x == op.x.x
                n == Len(x)
                back == [t \in 1..n |-> x[n + 1 - t]]
            IN \A t \in 1..FramesLen(cfg, x) : r.out.y[n + 1 - t] = Frames(cfg, back)[t]
       /\ cfg.kind = "slide" => r.out.y[1] = Delays(cfg, r.s.i, r.s.hist)[Len(r.s.hist)]
=============================================================================
