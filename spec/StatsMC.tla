-------------------------------- MODULE StatsMC --------------------------------
(* The incremental algorithm of a counter (running minimum, maximum, ...) kept  *)
(* beside the bag of values, over every short history of record, merge, reset.  *)
EXTENDS Stats, Json
CONSTANTS N, Vals, MaxOps, Emit   \* Vals: plus one, so that -1 can be written
VARIABLES bag, alg, ops
vars == <<bag, alg, ops>>
Zero == [count |-> 0, sum |-> 0, rmin |-> 0, min |-> 0, max |-> 0]
Init == bag = Fresh(N) /\ alg = [i \in 1..N |-> Zero] /\ ops = <<>>
Rec(a, v) == IF a.count = 0 THEN [count |-> 1, sum |-> v, rmin |-> v, min |-> v, max |-> v]
             ELSE [count |-> a.count + 1, sum |-> a.sum + v, rmin |-> IF v < a.rmin THEN v ELSE a.rmin,
                   min |-> IF v /= 0 /\ (a.min = 0 \/ v < a.min) THEN v ELSE a.min, max |-> IF v > a.max THEN v ELSE a.max]
Mrg(a, c) == IF c.count = 0 THEN a ELSE IF a.count = 0 THEN c
             ELSE [count |-> a.count + c.count, sum |-> a.sum + c.sum, rmin |-> IF c.rmin < a.rmin THEN c.rmin ELSE a.rmin,
                   min |-> IF c.min /= 0 /\ (a.min = 0 \/ c.min < a.min) THEN c.min ELSE a.min, max |-> IF c.max > a.max THEN c.max ELSE a.max]
Do(op) == /\ ops' = Append(ops, op) /\ bag' = Step(bag, op)
          /\ alg' = CASE op[1] = "r" -> [alg EXCEPT ![op[2]] = Rec(@, op[3])]
                      [] op[1] = "m" -> [alg EXCEPT ![op[2]] = Mrg(@, alg[op[3]])]
                      [] op[1] = "z" -> [alg EXCEPT ![op[2]] = Zero]
Next == Len(ops) < MaxOps /\ \E i \in 1..N :
          \/ \E v \in Vals : Do(<<"r", i, v - 1>>)
          \/ \E j \in 1..N \ {i} : Do(<<"m", i, j>>)
          \/ Do(<<"z", i, 0>>)
Spec == Init /\ [][Next]_vars
Agree == \A i \in 1..N : alg[i] = Obs(bag[i])
Show == Emit /\ Len(ops) = MaxOps => PrintT(<<"CASE", ToJson(ops)>>)
================================================================================
