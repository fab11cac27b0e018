-------------------------------- MODULE Ext ---------------------------------
(* The extension mechanism.  Classes 1..n with their method resolution order *)
(* cfg.mro[k]; cfg.own[k] lists the attributes (numbers) class k defines     *)
(* itself.  An extension is registered by functions (one class, one          *)
(* attribute each) or by a hierarchy of extension classes.  An injected      *)
(* value is 10 * extension + defining extension class (or node class).       *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Cls(cfg) == 1..Len(cfg.mro)
Exts(cfg) == 1..Len(cfg.def)
Rng(q) == {q[i] : i \in 1..Len(q)}

\* ------------------------------------------------------------ registration
\* extension class i of a definition: its ancestors, nearest first (0: the base)
RECURSIVE Chain(_, _)
Chain(nodes, i) == IF i = 0 THEN <<0>> ELSE <<i>> \o Chain(nodes, nodes[i].par)
AttrsOf(d, i) == IF i = 0 THEN Rng(d.base) ELSE Rng(d.nodes[i].at)
Has(d, i) == UNION {AttrsOf(d, j) : j \in Rng(Chain(d.nodes, i))}
Definer(d, i, a) == LET c == Chain(d.nodes, i)
                        k == CHOOSE k \in 1..Len(c) : /\ a \in AttrsOf(d, c[k])
                                                      /\ \A m \in 1..(k - 1) : a \notin AttrsOf(d, c[m])
                    IN c[k]
\* the set of <<class, attribute, value>> after the extension classes 1..i
RECURSIVE RegUpTo(_, _, _, _)
RegUpTo(cfg, e, d, i) ==
  IF i = 0 THEN {} ELSE
  LET old == RegUpTo(cfg, e, d, i - 1)
      k == d.nodes[i].k
      new == {<<k, a, 10 * e + Definer(d, i, a)>> : a \in Has(d, i)}
      \* a value some superclass of the class already gets is not injected again
      add == {n \in new : ~\E o \in old : o[1] \in Rng(cfg.mro[k]) /\ o[2] = n[2] /\ o[3] = n[3]}
      over == {o \in old : ~\E n \in add : n[1] = o[1] /\ n[2] = o[2]}
  IN over \cup add
Reg0(cfg, e) ==
  LET d == cfg.def[e] IN
  IF d.style = "fn" THEN {<<q[1], q[2], 10 * e + q[1]>> : q \in Rng(d.items)}
  ELSE RegUpTo(cfg, e, d, Len(d.nodes))

\* reg : registrations, held[k][a] : the value injected there or 0,
\* act : active extensions, ctx : the open contexts, each the extensions it ends
Start(cfg) == [reg |-> [e \in Exts(cfg) |-> Reg0(cfg, e)],
               held |-> [k \in Cls(cfg) |-> [a \in 1..cfg.na |-> 0]],
               act |-> {}, ctx |-> <<>>]

\* ---------------------------------------------------------------- visibility
Owned(cfg, s, k, a) == s.held[k][a] # 0 \/ a \in Rng(cfg.own[k])
Visible(cfg, s, k, a) ==
  LET r == cfg.mro[k]
      J == {j \in 1..Len(r) : Owned(cfg, s, r[j], a)}
  IN IF J = {} THEN <<0, 0>>
     ELSE LET j == CHOOSE x \in J : \A y \in J : x <= y IN <<r[j], s.held[r[j]][a]>>
Table(cfg, s) == [k \in Cls(cfg) |-> [a \in 1..cfg.na |-> Visible(cfg, s, k, a)]]
\* the original of an overridden method of the class itself stays reachable
NonExt(cfg, s) == [k \in Cls(cfg) |-> [a \in 1..cfg.na |->
                     IF a \in Rng(cfg.own[k]) /\ s.held[k][a] # 0 THEN 1 ELSE 0]]

\* -------------------------------------------------- one (de)activation
\* m: [s, e : error or "", ev : setup (e) and teardown (-e) calls]
M(s) == [s |-> s, e |-> "", ev |-> <<>>]
Ok(m) == m.e = ""

Drop(s, e) == [s EXCEPT !.act = @ \ {e},
                        !.held = [k \in DOMAIN s.held |-> [a \in DOMAIN s.held[k] |->
                                    IF s.held[k][a] \div 10 = e THEN 0 ELSE s.held[k][a]]]]
Deact(cfg, m, e) ==
  IF e \notin Exts(cfg) THEN [m EXCEPT !.e = "ExtensionException"]
  ELSE IF e \notin m.s.act THEN m
  ELSE [m EXCEPT !.s = Drop(m.s, e), !.ev = IF cfg.su[e] = 0 THEN @ ELSE Append(@, -e)]

Act(cfg, m, e) ==
  IF e \notin Exts(cfg) THEN [m EXCEPT !.e = "ExtensionException"]
  ELSE IF e \in m.s.act THEN m
  ELSE LET clash == \E r \in m.s.reg[e] : m.s.held[r[1]][r[2]] # 0
           ev == IF cfg.su[e] = 0 THEN m.ev ELSE Append(m.ev, e)
           rev == IF cfg.su[e] = 0 THEN ev ELSE Append(ev, -e)
       IN IF cfg.su[e] = 2 THEN [m EXCEPT !.e = "ValueError", !.ev = rev]
          ELSE IF clash THEN [m EXCEPT !.e = "ExtensionException", !.ev = rev]
          ELSE [m EXCEPT !.ev = ev, !.s.act = @ \cup {e},
                  !.s.held = [k \in DOMAIN m.s.held |-> [a \in DOMAIN m.s.held[k] |->
                     IF \E r \in m.s.reg[e] : r[1] = k /\ r[2] = a
                     THEN (CHOOSE r \in m.s.reg[e] : r[1] = k /\ r[2] = a)[3]
                     ELSE m.s.held[k][a]]]]

RECURSIVE Deacts(_, _, _), ActSeq(_, _, _), DeactAll(_, _)
Deacts(cfg, m, es) == IF es = <<>> \/ ~Ok(m) THEN m ELSE Deacts(cfg, Deact(cfg, m, Head(es)), Tail(es))
ActSeq(cfg, m, es) == IF es = <<>> \/ ~Ok(m) THEN m ELSE ActSeq(cfg, Act(cfg, m, Head(es)), Tail(es))
DeactAll(cfg, m) == IF m.s.act = {} THEN m
                    ELSE DeactAll(cfg, Deact(cfg, m, CHOOSE e \in m.s.act : TRUE))
\* a list that cannot be activated completely deactivates everything
Acts(cfg, m, es) == LET a == ActSeq(cfg, m, es)
                    IN IF Ok(a) THEN a ELSE [DeactAll(cfg, [a EXCEPT !.e = ""]) EXCEPT !.e = a.e]

RECURSIVE Filter(_, _)
Filter(es, S) == IF es = <<>> THEN <<>>
                 ELSE (IF Head(es) \in S THEN <<>> ELSE <<Head(es)>>) \o Filter(Tail(es), S)

RECURSIVE Bag(_)
Bag(ev) == IF ev = <<>> THEN <<>>
           ELSE LET lo == CHOOSE x \in Rng(ev) : \A y \in Rng(ev) : x <= y
                    i == CHOOSE i \in 1..Len(ev) : ev[i] = lo
                IN <<lo>> \o Bag(SubSeq(ev, 1, i - 1) \o SubSeq(ev, i + 1, Len(ev)))

Ret(m, in) == [s |-> m.s, out |-> [e |-> m.e, ev |-> Bag(m.ev), in |-> in]]

Step(cfg, s, op) ==
  CASE op.t = "act" -> Ret(Act(cfg, M(s), op.e), <<>>)
    [] op.t = "deact" -> Ret(Deact(cfg, M(s), op.e), <<>>)
    [] op.t = "acts" -> Ret(Acts(cfg, M(s), op.es), <<>>)
    [] op.t = "deacts" -> Ret(Deacts(cfg, M(s), op.es), <<>>)
    \* with extension(...): the context ends only what it started
    [] op.t = "enter" ->
         LET a == Acts(cfg, M(s), op.es)
         IN Ret(IF Ok(a) THEN [a EXCEPT !.s.ctx = Append(@, Filter(op.es, s.act))] ELSE a, <<>>)
    \* leaving the k-th open context, normally or by an exception in the body
    [] op.t = "exit" ->
         LET c == s.ctx[op.i]
             m == Deacts(cfg, M([s EXCEPT !.ctx = SubSeq(@, 1, op.i - 1) \o
                                     SubSeq(@, op.i + 1, Len(@))]), c)
         IN Ret([m EXCEPT !.e = IF Ok(m) /\ op.x THEN "KeyError" ELSE m.e], <<>>)
    \* a function decorated with_extension(e), whose body does op.b
    [] op.t = "call" ->
         IF op.e \in s.act
         THEN Ret([M(s) EXCEPT !.e = IF op.b = "raise" THEN "KeyError" ELSE ""], Table(cfg, s))
         ELSE LET a == Act(cfg, M(s), op.e)
                  b == IF ~Ok(a) THEN a
                       ELSE IF op.b = "raise" THEN [a EXCEPT !.e = "KeyError"]
                       ELSE IF op.b = "deact" THEN Deact(cfg, a, op.e)
                       ELSE IF op.b = "nest" THEN
                            LET c == Act(cfg, a, op.e2)
                            IN IF op.e2 \in a.s.act \/ ~Ok(c) THEN c ELSE Deact(cfg, c, op.e2)
                       ELSE a
                  d == Deact(cfg, [b EXCEPT !.e = ""], op.e)
              IN Ret([d EXCEPT !.e = IF Ok(d) THEN b.e ELSE d.e],
                     IF Ok(a) THEN Table(cfg, a.s) ELSE <<>>)
    \* registering one more method, possibly while the extension is active
    [] op.t = "reg" ->
         Ret(M([s EXCEPT !.reg[op.e] = {r \in @ : ~(r[1] = op.k /\ r[2] = op.a)}
                                       \cup {<<op.k, op.a, 10 * op.e + op.k>>}]), <<>>)

\* what can be observed of a state
Obs(cfg, s) == [tab |-> Table(cfg, s), nx |-> NonExt(cfg, s), act |-> s.act, clean |-> TRUE,
                nctx |-> Len(s.ctx)]

StepInv(cfg, s, op, r) ==
  \* every injected value belongs to an active extension, and without active
  \* extensions everything is as defined
  /\ \A k \in Cls(cfg) : \A a \in 1..cfg.na : r.s.held[k][a] # 0 => r.s.held[k][a] \div 10 \in r.s.act
  /\ r.s.act = {} => Table(cfg, r.s) = Table(cfg, Start(cfg))
  \* an active extension has all its registrations in force, except late ones
  /\ \A e \in r.s.act : (op.t # "reg" /\ r.s.reg = Start(cfg).reg)
        => \A q \in r.s.reg[e] : r.s.held[q[1]][q[2]] = q[3]
  \* a refused activation of one extension, and any decorated call whose body
  \* does not raise errors about extensions, changes nothing
  /\ op.t \in {"act", "deact"} /\ r.out.e # "" => r.s = s
  /\ op.t = "call" => r.s = s
  /\ op.t = "exit" => r.s.act \subseteq s.act
=============================================================================
