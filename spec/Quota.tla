---- MODULE Quota ----
(* C17: the controller of all transfers of a process. Senders and receivers
   ("s", "r") live in namespaces, under a limit for each namespace and one for
   all; a limit of 0 or less is none. A slot may be taken before the object is
   there and given back after it is gone: for that while others may be refused.

   ns[w]: registered or not; its objects [k |-> ids] and which are over
   (old), its limits. cnt[k]: slots taken. *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Kinds == {"s", "r"}
Names == {"a", "b"}

Fresh(cfg) == [on |-> TRUE, ob |-> [k \in Kinds |-> {}], old |-> [k \in Kinds |-> {}],
               lim |-> [k \in Kinds |-> IF k = "s" THEN cfg.nsl ELSE cfg.nrl]]
Off(cfg) == [Fresh(cfg) EXCEPT !.on = FALSE]

QuotaS0(cfg) == [ns |-> [w \in Names |-> Off(cfg)], cnt |-> [k \in Kinds |-> 0],
                 lim |-> [k \in Kinds |-> IF k = "s" THEN cfg.gsl ELSE cfg.grl], strict |-> FALSE,
                 here |-> [k \in Kinds |-> 0]]  \* slots held by no object

Room(n, lim) == lim <= 0 \/ n < lim
RECURSIVE Sorted(_)
Sorted(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y IN <<m>> \o Sorted(S \ {m})
Alive(s, k) == Cardinality(s.ns["a"].ob[k]) + Cardinality(s.ns["b"].ob[k])

\* the objects gone in W go, and give their slots back (D of them now)
Give(s, k, n) == [s EXCEPT !.cnt[k] = @ - n]

Create(cfg, s, k, w, id) ==
  IF ~s.ns[w].on /\ s.strict THEN {[s |-> s, r |-> "NOT_FOUND"]}
  ELSE
  LET s1 == IF s.ns[w].on THEN s ELSE [s EXCEPT !.ns[w] = Fresh(cfg)]
      n == s1.ns[w]
      room == Room(s1.cnt[k], s1.lim[k]) /\ Room(Cardinality(n.ob[k]), n.lim[k]) IN
  IF id \in n.ob[k]
  THEN {[s |-> s1, r |-> "ALREADY_EXISTS"]} \cup (IF room THEN {} ELSE {[s |-> s1, r |-> "QUOTA_EXCEEDED"]})
       \* the slot is taken for a moment
       \cup (IF room THEN {[s |-> [s1 EXCEPT !.cnt[k] = @ + 1, !.here[k] = @ + 1], op |-> <<"undo", k>>]} ELSE {})
  ELSE IF room
  THEN {[s |-> [s1 EXCEPT !.ns[w].ob[k] = @ \cup {id}, !.cnt[k] = @ + 1], r |-> "OK"]}
  ELSE {[s |-> s1, r |-> "QUOTA_EXCEEDED"]}

Drop(s, k, w, ids) == [s EXCEPT !.ns[w].ob[k] = @ \ ids, !.ns[w].old[k] = @ \ ids]
\* the objects go, their slots at once or a little later
Release(s, k, w, ids, r) ==
  LET n == Cardinality(ids)  d == Drop(s, k, w, ids) IN
  {[s |-> Give(d, k, n), r |-> r]} \cup
  (IF n > 0 THEN {[s |-> [d EXCEPT !.here[k] = @ + n], op |-> <<"later", k, n, r>>]} ELSE {})

Empty(cfg, s, w) == [s EXCEPT !.ns[w] = Off(cfg), !.cnt = [k \in Kinds |-> s.cnt[k] - Cardinality(s.ns[w].ob[k])]]

QuotaStep(cfg, s, t, op) ==
  CASE op[1] = "create" -> Create(cfg, s, op[2], op[3], op[4])
  [] op[1] = "undo" -> {[s |-> [Give(s, op[2], 1) EXCEPT !.here[op[2]] = @ - 1], r |-> "ALREADY_EXISTS"]}
  [] op[1] = "later" -> {[s |-> [Give(s, op[2], op[3]) EXCEPT !.here[op[2]] = @ - op[3]], r |-> op[4]]}
  [] op[1] = "release" -> IF s.ns[op[3]].on /\ op[4] \in s.ns[op[3]].ob[op[2]]
                          THEN Release(s, op[2], op[3], {op[4]}, "OK") ELSE {[s |-> s, r |-> "ERROR"]}
  [] op[1] = "all" -> IF s.ns[op[3]].on THEN Release(s, op[2], op[3], s.ns[op[3]].ob[op[2]], "OK")
                      ELSE {[s |-> s, r |-> "ERROR"]}
  [] op[1] = "stale" -> IF s.ns[op[3]].on
                        THEN Release(s, op[2], op[3], s.ns[op[3]].old[op[2]], ToString(Sorted(s.ns[op[3]].old[op[2]])))
                        ELSE {[s |-> s, r |-> "NOT_FOUND"]}
  \* a transfer ends (nothing is given back by that)
  [] op[1] = "finish" -> LET h == s.ns[op[3]].on /\ op[4] \in s.ns[op[3]].ob[op[2]] IN
                         {[s |-> IF h THEN [s EXCEPT !.ns[op[3]].old[op[2]] = @ \cup {op[4]}] ELSE s, r |-> h]}
  [] op[1] = "has" -> {[s |-> s, r |-> op[4] \in s.ns[op[3]].ob[op[2]]]}
  [] op[1] = "ids" -> {[s |-> s, r |-> Sorted(s.ns[op[2]].ob["s"])]}
  [] op[1] = "many" -> {[s |-> s, r |-> Cardinality(s.ns[op[3]].ob[op[2]])]}
  [] op[1] = "count" -> {[s |-> s, r |-> <<Cardinality({w \in Names : s.ns[w].on}), s.cnt["s"], s.cnt["r"]>>]}
  [] op[1] = "room" -> {[s |-> s, r |-> Room(s.cnt[op[2]], s.lim[op[2]])
                            /\ (s.ns[op[3]].on => Room(Cardinality(s.ns[op[3]].ob[op[2]]), s.ns[op[3]].lim[op[2]]))]}
  [] op[1] = "reg" -> {[s |-> IF s.ns[op[2]].on THEN s ELSE [s EXCEPT !.ns[op[2]] = Fresh(cfg)], r |-> "OK"]}
  [] op[1] = "dereg" -> IF s.ns[op[2]].on
                        THEN {[s |-> Empty(cfg, s, op[2]), r |-> "OK"]} \cup
                             {[s |-> [[s EXCEPT !.ns[op[2]] = Off(cfg)]
                                 EXCEPT !.here = [k \in Kinds |-> @[k] + Cardinality(s.ns[op[2]].ob[k])]],
                               op |-> <<"gone", Cardinality(s.ns[op[2]].ob["s"]), Cardinality(s.ns[op[2]].ob["r"])>>]}
                        ELSE {[s |-> s, r |-> "ERROR"]}
  [] op[1] = "gone" -> LET n == [k \in Kinds |-> IF k = "s" THEN op[2] ELSE op[3]] IN
                       {[s |-> [s EXCEPT !.cnt = [k \in Kinds |-> @[k] - n[k]], !.here = [k \in Kinds |-> @[k] - n[k]]], r |-> "OK"]}
  [] op[1] = "shutdown" -> {[s |-> Empty(cfg, Empty(cfg, s, "a"), "b"), r |-> "OK"]}
  [] op[1] = "glim" -> {[s |-> [s EXCEPT !.lim[op[2]] = op[3]], r |-> "OK"]}
  [] op[1] = "nlim" -> {[s |-> IF s.ns[op[3]].on THEN [s EXCEPT !.ns[op[3]].lim[op[2]] = op[4]] ELSE s, r |-> "OK"]}
  [] op[1] = "strict" -> {[s |-> [s EXCEPT !.strict = (op[2] = 1)], r |-> "OK"]}
  [] OTHER -> {}

\* what it is for
CountsAgree(s) == \A k \in Kinds : s.cnt[k] = Alive(s, k) + s.here[k] /\ s.here[k] >= 0
OffIsEmpty(s) == \A w \in Names : ~s.ns[w].on => \A k \in Kinds : s.ns[w].ob[k] = {}
WithinLimits(s) == \A k \in Kinds : (s.lim[k] > 0 => s.cnt[k] <= s.lim[k]) /\
                     \A w \in Names : s.ns[w].lim[k] > 0 => Cardinality(s.ns[w].ob[k]) <= s.ns[w].lim[k]
====
