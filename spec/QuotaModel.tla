---- MODULE QuotaModel ----
(* Two or three threads over the controller: every interleaving. Limits are not
   lowered here (that alone may leave more than allowed). *)
EXTENDS Quota, TLC, Json
CONSTANT Len2
VARIABLES cs, s, p, rest
A == {<<"create", "s", "a", 1>>, <<"create", "s", "a", 2>>, <<"release", "s", "a", 1>>, <<"all", "s", "a">>, <<"dereg", "a">>,
      <<"stale", "s", "a">>, <<"shutdown">>, <<"create", "s", "b", 1>>, <<"count">>, <<"reg", "a">>, <<"finish", "s", "a", 1>>}
End == <<<<"count">>, <<"many", "s", "a">>, <<"create", "s", "a", 3>>, <<"count">>, <<"create", "s", "b", 3>>, <<"count">>>>
TheCases == {[kind |-> "quota", cfg |-> [gsl |-> g, grl |-> 1, nsl |-> n, nrl |-> 1], 
              prog |-> (0 :> <<pre, x>> \o (IF Len2 THEN <<z>> ELSE <<>>) \o End) @@ (1 :> <<y>>)] :
                g \in {0, 2}, n \in {1, 2}, pre \in {<<"reg", "a">>, <<"create", "s", "a", 1>>},
                x \in A, z \in (IF Len2 THEN A ELSE {<<"count">>}), y \in A}
None(o, r) == <<>>
INSTANCE LinModel WITH S0 <- QuotaS0, Step <- QuotaStep, After <- None, Cases <- TheCases
Inv == CountsAgree(s) /\ OffIsEmpty(s) /\ WithinLimits(s)
====
