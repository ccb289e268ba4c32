---- MODULE ApiModel ----
(* Two threads calling: every interleaving of the steps of their calls. *)
EXTENDS Api, TLC, Json
VARIABLES cs, s, p, rest
A == {<<"send", "a", 1, 1, 0, "none">>, <<"send", "a", 1, 2, 1, "none">>, <<"send", "a", 2, 3, 1, "baddir">>, <<"send", "b", 1, 1, 1, "none">>,
      <<"rstart", "a", 1, "ok">>, <<"rstart", "a", 1, "baddir">>, <<"rfinish", "a", 1>>, <<"go", "a", 1, 1, 1, "none">>, <<"alive">>, <<"done">>, <<"send", "a", 1, 3, 1, "to_1">>}
Drawn == {[kind |-> "api", cfg |-> [gsl |-> g, grl |-> 1, nsl |-> n, nrl |-> 1, nthr |-> 2],
              prog |-> (0 :> <<x, z, <<"done">>, <<"join">>, <<"count">>>>) @@ (1 :> <<y, <<"done">>, <<"bye">>>>)] : g \in {0, 1}, n \in {1, 2}, x \in A, y \in {q \in A : q[1] # "rfinish"}, z \in A}
\* one send that goes on at a time in each thread; no receiver is finished while it is being started
TheCases == {c \in Drawn : LET w(t, i) == c.prog[t][i][1] IN
                           /\ ~(w(0, 1) = "go" /\ w(0, 2) = "go")
                           /\ ~(w(1, 1) = "rstart" /\ "rfinish" \in {w(0, 1), w(0, 2)})}
None(o, r) == <<>>
INSTANCE LinModel WITH S0 <- ApiS0, Step <- ApiStep, After <- None, Cases <- TheCases
Inv == OneEach(s) /\ Within(cs.cfg, s)
Stop == \A t \in DOMAIN p : p[t].ph = "idle" /\ rest[t] = cs.prog[t]
AllBack == MDone => s.snd = {}
====
