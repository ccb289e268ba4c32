---- MODULE ThrottleMC ----
(* The algorithm of Throttler in whole units of time and bytes: an average kept
   against the whole period and a token bucket, threads that sleep for what the
   computation says; requests that the average delays do not use tokens. *)
EXTENDS Throttle, TLC
CONSTANTS Threads, Avg, Peak, Burst, Sizes, MaxT, MaxN
VARIABLES now, prog, bucket, last, wait, rel
vars == <<now, prog, bucket, last, wait, rel>>
Idle == [on |-> FALSE]
Init == now = 0 /\ prog = 0 /\ bucket = 0 /\ last = 0 /\ wait = [t \in Threads |-> Idle] /\ rel = <<>>
Up(a, b) == (a + b - 1) \div b
Min(a, b) == IF a < b THEN a ELSE b
Sleep(t, b, n) == IF n <= 0 THEN rel' = Append(rel, [b |-> b, t |-> now]) /\ UNCHANGED wait
                  ELSE wait' = [wait EXCEPT ![t] = [on |-> TRUE, b |-> b, at |-> now + n]] /\ UNCHANGED rel
Ask(t) == /\ ~wait[t].on /\ Len(rel) < MaxN
          /\ \E b \in Sizes :
               LET p == prog + b IN
               /\ prog' = p
               /\ IF Avg > 0 /\ p > Avg * now
                  THEN Sleep(t, b, Up(p, Avg) - now) /\ UNCHANGED <<bucket, last>>
                  ELSE IF Peak > 0
                  THEN LET k == Min(Burst, bucket + (now - last) * Peak) - b IN
                       /\ bucket' = k /\ last' = now
                       /\ Sleep(t, b, IF k < 0 THEN Up(0 - k, Peak) ELSE 0)
                  ELSE Sleep(t, b, 0) /\ UNCHANGED <<bucket, last>>
          /\ UNCHANGED now
Wake(t) == /\ wait[t].on /\ wait[t].at <= now
           /\ rel' = Append(rel, [b |-> wait[t].b, t |-> now]) /\ wait' = [wait EXCEPT ![t] = Idle]
           /\ UNCHANGED <<now, prog, bucket, last>>
Tick == /\ now < MaxT /\ \A t \in Threads : wait[t].on => wait[t].at > now
        /\ now' = now + 1 /\ UNCHANGED <<prog, bucket, last, wait, rel>>
Next == Tick \/ \E t \in Threads : Ask(t) \/ Wake(t)
Spec == Init /\ [][Next]_vars
Biggest == CHOOSE x \in Sizes : \A y \in Sizes : y <= x
Bound == AvgOk(rel, 0, [avg |-> Avg], 1) /\ PeakOk(rel, [peak |-> Peak, burst |-> Burst], 1, Cardinality(Threads) * Biggest)
====
