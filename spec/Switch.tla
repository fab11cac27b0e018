------------------------------- MODULE Switch -------------------------------
(* mdp.hinet switchboards: Switchboard, MeanInverseSwitchboard,              *)
(* ChannelSwitchboard, their mixture, and bimdp's BiSwitchboard.             *)
(* cfg: [kind, din, con, och, ich]: con is the connection list (0-based      *)
(* input indices, possibly wrong), och / ich the channel widths.             *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Mean(cfg) == cfg.kind \in {"mean", "meanchan"}
Chan(cfg) == cfg.kind \in {"chan", "meanchan", "bichan"}
Bi(cfg) == cfg.kind \in {"bi", "bichan"}
NC(cfg) == Len(cfg.con)
Valid(cfg) == /\ NC(cfg) > 0
              /\ \A i \in 1..NC(cfg) : cfg.con[i] >= 0 /\ cfg.con[i] < cfg.din
              /\ Chan(cfg) => NC(cfg) % cfg.och = 0 /\ cfg.din % cfg.ich = 0
\* positions of the output components fed by input component k (0-based)
Fed(cfg, k) == {i \in 1..NC(cfg) : cfg.con[i] = k}
Perm(cfg) == NC(cfg) = cfg.din /\ \A k \in 0..(cfg.din - 1) : Cardinality(Fed(cfg, k)) = 1
Inv(cfg) == Mean(cfg) \/ Perm(cfg)
The(S) == CHOOSE v \in S : TRUE
RECURSIVE Plus(_, _)
Plus(r, S) == IF S = {} THEN 0 ELSE LET i == The(S) IN r[i] + Plus(r, S \ {i})
Gather(cfg, x) == [q \in DOMAIN x |-> [i \in 1..NC(cfg) |-> x[q][cfg.con[i] + 1]]]
\* values are multiples of 60: means over up to six components are integers
MeanOf(r, S) == IF S = {} THEN 0 ELSE Plus(r, S) \div Cardinality(S)
Scatter(cfg, y) == [q \in DOMAIN y |-> [k \in 1..cfg.din |-> MeanOf(y[q], Fed(cfg, k - 1))]]

S0 == [made |-> FALSE, dt |-> ""]
Start(cfg) == S0
Out(e, y, dt) == [e |-> e, y |-> y, dt |-> dt, m |-> <<>>]
Exc == Out(TRUE, <<>>, "")
R(s, o) == [s |-> s, out |-> o]
Refuse(s) == R(s, Exc)
Typed(s, d) == IF s.dt = "" THEN [s EXCEPT !.dt = d.dt] ELSE s
New(cfg, s) == IF Valid(cfg) THEN R([s EXCEPT !.made = TRUE], Out(FALSE, <<>>, "")) ELSE Refuse(s)
Exec(cfg, s, d) ==
  IF d.w # cfg.din \/ d.x = <<>> THEN Refuse(Typed(s, d))
  ELSE R(Typed(s, d), Out(FALSE, Gather(cfg, d.x), Typed(s, d).dt))
\* inversion converts to the dtype but does not fix it; means are double precision
Inverse(cfg, s, d) ==
  IF ~Inv(cfg) \/ d.w # NC(cfg) THEN Refuse(s)
  ELSE R(s, Out(FALSE, Scatter(cfg, d.x), IF Mean(cfg) \/ s.dt = "" THEN "f8" ELSE s.dt))
\* array entries as wide as the switchboard are routed like the data
MsgExec(cfg, m) == [i \in DOMAIN m |-> IF m[i].a /\ m[i].w = cfg.din THEN [m[i] EXCEPT !.w = NC(cfg), !.x = Gather(cfg, m[i].x)] ELSE m[i]]
MsgInv(cfg, m) == [i \in DOMAIN m |-> IF m[i].a /\ m[i].w = NC(cfg) THEN [m[i] EXCEPT !.w = cfg.din, !.x = Scatter(cfg, m[i].x)] ELSE m[i]]
BExec(cfg, s, op) ==
  IF op.none THEN R(s, [Exc EXCEPT !.e = FALSE, !.m = MsgExec(cfg, op.m)])
  ELSE LET r == Exec(cfg, s, op.d) IN IF r.out.e THEN r ELSE R(r.s, [r.out EXCEPT !.m = MsgExec(cfg, op.m)])
\* a message may ask execute for the inverse; the data is then not converted
BInverse(cfg, s, op) ==
  LET hit == \E i \in DOMAIN op.m : op.m[i].a /\ op.m[i].w = NC(cfg)
  IN IF (~Inv(cfg) /\ (~op.none \/ hit)) \/ (~op.none /\ op.d.w # NC(cfg)) THEN Refuse(s)
     ELSE IF op.none THEN R(s, [Exc EXCEPT !.e = FALSE, !.m = MsgInv(cfg, op.m)])
     ELSE R(s, [e |-> FALSE, y |-> Scatter(cfg, op.d.x), dt |-> op.d.dt, m |-> MsgInv(cfg, op.m)])
\* --------------------------------------------------------------- channels --
OutIn(cfg, c) == [j \in 1..cfg.och |-> cfg.con[c * cfg.och + j]]
Ins(cfg, cs) ==
  LET hit == {k \in 0..(cfg.din \div cfg.ich - 1) :
                \E q \in DOMAIN cs : \E j \in 1..cfg.och : OutIn(cfg, cs[q])[j] \div cfg.ich = k}
  IN [i \in 1..Cardinality(hit) |-> CHOOSE k \in hit : Cardinality({l \in hit : l < k}) = i - 1]
OutNode(cfg, c, x) == LET f == OutIn(cfg, c) IN [q \in DOMAIN x |-> [j \in 1..cfg.och |-> x[q][f[j] + 1]]]

Step(cfg, s, op) ==
  CASE op.t = "new" -> New(cfg, s)
    [] op.t = "execute" -> Exec(cfg, s, op.d)
    [] op.t = "inverse" -> Inverse(cfg, s, op.d)
    [] op.t = "bexec" -> BExec(cfg, s, op)
    [] op.t = "binverse" -> BInverse(cfg, s, op)
    [] op.t = "outin" -> R(s, Out(FALSE, <<OutIn(cfg, op.c)>>, ""))
    [] op.t = "outnode" -> R(s, Out(FALSE, OutNode(cfg, op.c, op.d.x), op.d.dt))
    [] op.t = "ins" -> R(s, Out(FALSE, <<Ins(cfg, op.cs)>>, ""))
StepInv(cfg, s, op, r) ==
  /\ s.dt # "" => r.s.dt = s.dt
  /\ (op.t = "execute" /\ ~r.out.e /\ Perm(cfg)) => Scatter(cfg, r.out.y) = op.d.x
  /\ (op.t = "inverse" /\ ~r.out.e /\ Perm(cfg)) => Gather(cfg, r.out.y) = op.d.x
=============================================================================
