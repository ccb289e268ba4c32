----------------------------- MODULE CoordModel -----------------------------
EXTENDS Coord, TLC, Json
VARIABLES cs, s, p, rest
CONSTANT N

T == 0..(N - 1)
Cfg == [n |-> N]
Mk(f, kind) == [cfg |-> Cfg, prog |-> f, kind |-> kind]

BarrierCases == {Mk([t \in T |-> IF t \in A THEN <<<<"barrier">>, <<"finish", t>>>> ELSE <<<<"finish", t>>>>], "barrier")
                 : A \in SUBSET T}
OnceCases == {Mk([t \in T |-> <<<<k>>>>], k) : k \in {"first", "last"}}
FunnelCases == {Mk([t \in T |-> <<<<"fstatus", f[t]>>>>], "funnel") : f \in [T -> 0..1]}
               \cup {Mk([t \in T |-> <<<<"fstatus", f[t], 5 * (2^t)>>>>], "tfunnel") : f \in [T -> 0..1]}
Lk(x) == <<<<"lock">>>> \o x \o <<<<"unlock">>>>
CondParts(t) == {Lk(<<<<"cwait", 5 * (2^t)>>>>), Lk(<<<<"nall">>>>), Lk(<<<<"none">>>>),
                 Lk(<<<<"nall">>, <<"cwait", 5 * (2^t)>>>>)}
CondCases == {Mk(f, "cond") : f \in {g \in [T -> UNION {CondParts(t) : t \in T}] : \A t \in T : g[t] \in CondParts(t)}}
StatePart(t) == {<<<<"reg", t>>, <<"others", t, "RUNNING">>, <<"finish", t>>, <<"running">>>>,
                 <<<<"reg", t>>, <<"mark", t, "WAITING">>, <<"any", "RUNNING">>, <<"get", t>>, <<"finish", t>>>>,
                 <<<<"running">>, <<"any", "INIT">>, <<"others", 0, "FINISHED">>>>}
StateCases == {Mk(f, "states") : f \in {g \in [T -> UNION {StatePart(t) : t \in T}] : \A t \in T : g[t] \in StatePart(t)}}
ResetCases == {Mk([t \in T |-> IF t = 0
                      THEN <<<<"reg", 0>>, <<"barrier">>, <<"reset">>, <<"running">>, <<"fstatus", 0>>>> ELSE <<>>], "reset") : x \in IF N = 1 THEN {1} ELSE {}}

CoordCases == BarrierCases \cup OnceCases \cup FunnelCases \cup (IF N <= 3 THEN CondCases \cup StateCases ELSE {}) \cup ResetCases

CoordAfter(op, r) ==
  IF op[1] # "fstatus" THEN <<>>
  ELSE IF r = "START" THEN (IF op[2] > 0 THEN <<<<"ffail">>, [op EXCEPT ![2] = @ - 1]>> ELSE <<<<"fdone">>>>)
  ELSE IF r = "PROGRESS" THEN <<IF Len(op) > 2 THEN <<"ftwait", op[3]>> ELSE <<"fwait">>, op>>
  ELSE <<>>

INSTANCE LinModel WITH S0 <- CoordS0, Step <- CoordStep, After <- CoordAfter, Cases <- CoordCases

\* nobody passes the barrier while a thread that will still arrive or leave is on its way
BarrierSafe == s.open => s.hits = s.n
\* one thread at most owns the funnel, and its work is never repeated after success
Owners == {t \in DOMAIN p : p[t].ph = "called" /\ p[t].top[1] \in {"fdone", "ffail"}}
FunnelSafe == /\ s.fk \subseteq s.fw
              /\ s.fun = "END" => \A t \in DOMAIN p : ~(p[t].ph = "called" /\ p[t].top[1] = "ffail")
LockSafe == s.ck \subseteq s.cw /\ (s.own # -1 => s.own \notin s.cw)
=============================================================================
