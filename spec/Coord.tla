------------------------------- MODULE Coord -------------------------------
(* The primitives with which WDT's threads wait for one another: barrier,
   funnel, execute-once, condition guard, thread states.  They are written as
   one object; an operation of thread t on state s is Step(cfg, s, t, op). *)
EXTENDS Integers, Sequences, FiniteSets

CoordS0(c) ==
  [n    |-> c.n,        \* threads that still take part in the barrier
   hits |-> 0, open |-> FALSE,
   fun  |-> "START", fw |-> {}, fk |-> {}, \* funnel status, threads waiting, of these notified
   once |-> 0, ran |-> 0,
   own  |-> -1, cw |-> {}, ck |-> {}, \* condition guard: owner, threads waiting, of these notified
   th   |-> [k \in 0..(c.n - 1) |-> "INIT"]]

Opens(s) == [s EXCEPT !.open = (s.open \/ s.hits = s.n)]

Fin(s, r) == {[s |-> s, r |-> r]}
Cont(s, op) == {[s |-> s, op |-> op]}

CoordStep(c, s, t, op) ==
  CASE op[1] = "barrier" ->          \* arrive, then leave once everyone arrived or left for good
         Cont(Opens([s EXCEPT !.hits = @ + 1]), <<"bleave">>)
    [] op[1] = "bleave" -> IF s.open THEN Fin(s, "ok") ELSE {}
    [] op[1] = "finish" ->           \* de-registration: the barrier no longer counts this thread
         Fin(LET u == [s EXCEPT !.th[op[2]] = "FINISHED"]
             IN IF u.open THEN u ELSE Opens([u EXCEPT !.n = @ - 1]), "ok")
    [] op[1] = "fstatus" ->
         IF s.fun = "START" THEN Fin([s EXCEPT !.fun = "PROGRESS"], "START") ELSE Fin(s, s.fun)
    [] op[1] = "fwait" ->
         IF s.fun # "PROGRESS" THEN Fin(s, "ok") ELSE Cont([s EXCEPT !.fw = @ \cup {t}], <<"fwaiting">>)
    [] op[1] = "fwaiting" ->
         IF t \in s.fk THEN Fin([s EXCEPT !.fw = @ \ {t}, !.fk = @ \ {t}], "ok") ELSE {}
    [] op[1] = "ftwait" ->           \* bounded wait: ends notified or with the time used up
         IF s.fun # "PROGRESS" THEN Fin(s, "ok") ELSE Cont([s EXCEPT !.fw = @ \cup {t}], <<"ftwaiting">>)
    [] op[1] = "ftwaiting" ->
         Fin([s EXCEPT !.fw = @ \ {t}, !.fk = @ \ {t}], IF t \in s.fk THEN "ok" ELSE "timeout")
    [] op[1] = "fdone" -> Fin([s EXCEPT !.fun = "END", !.fk = s.fw], "ok")
    [] op[1] = "ffail" ->            \* one of the waiting threads is told
         LET u == [s EXCEPT !.fun = "START"]
         IN IF s.fw \subseteq s.fk THEN Fin(u, "ok")
            ELSE UNION {Fin([u EXCEPT !.fk = @ \cup {w}], "ok") : w \in s.fw \ s.fk}
    [] op[1] = "first" ->            \* runs in the first thread; no one returns before it has run
         Fin([s EXCEPT !.once = @ + 1], IF s.once = 0 THEN "ran" ELSE "after")
    [] op[1] = "last" ->
         Fin([s EXCEPT !.once = @ + 1], IF s.once + 1 = c.n THEN "ran" ELSE "not")
    [] op[1] = "lock" -> IF s.own = -1 THEN Fin([s EXCEPT !.own = t], "ok") ELSE {}
    [] op[1] = "unlock" -> Fin([s EXCEPT !.own = -1], "ok")
    [] op[1] = "cwait" ->            \* gives the lock up, is notified or runs out of time, has the lock again
         Cont([s EXCEPT !.own = -1, !.cw = @ \cup {t}], <<"cwaiting">>)
    [] op[1] = "cwaiting" ->
         IF s.own # -1 THEN {}
         ELSE Fin([s EXCEPT !.own = t, !.cw = @ \ {t}, !.ck = @ \ {t}],
                  IF t \in s.ck THEN "ok" ELSE "timeout")
    [] op[1] = "nall" -> Fin([s EXCEPT !.ck = s.cw], "ok")
    [] op[1] = "none" ->
         IF s.cw \subseteq s.ck THEN Fin(s, "ok")
         ELSE UNION {Fin([s EXCEPT !.ck = @ \cup {w}], "ok") : w \in s.cw \ s.ck}
    [] op[1] = "reg" -> Fin([s EXCEPT !.th[op[2]] = "RUNNING"], "ok")
    [] op[1] = "mark" -> Fin([s EXCEPT !.th[op[2]] = op[3]], "ok")
    [] op[1] = "get" -> Fin(s, s.th[op[2]])
    [] op[1] = "others" -> Fin(s, \E k \in DOMAIN s.th : k # op[2] /\ s.th[k] = op[3])
    [] op[1] = "any" -> Fin(s, \E k \in DOMAIN s.th : s.th[k] = op[2])
    [] op[1] = "running" -> Fin(s, Cardinality({k \in DOMAIN s.th : s.th[k] = "RUNNING"}))
    [] op[1] = "sleep" -> Fin(s, "ok")
    [] op[1] = "reset" ->
         Fin([CoordS0(c) EXCEPT !.th = [k \in 0..(c.n - 1) |-> "RUNNING"]], "ok")
=============================================================================
