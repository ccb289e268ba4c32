----------------------------- MODULE BigramsMC -----------------------------
(* All short inputs: the two definitions of the statistics agree; and they are
   the inputs given to the real tool. *)
EXTENDS Bigrams, Json
CONSTANTS Alphabet, MaxRuns, MaxTimes
VARIABLES runs, wrap
Init == runs = <<>> /\ wrap \in BOOLEAN
Next == /\ Len(runs) < MaxRuns
        /\ \E b \in Alphabet, n \in 1..MaxTimes : runs' = Append(runs, <<b, n>>)
        /\ UNCHANGED wrap
Spec == Init /\ [][Next]_<<runs, wrap>>
Agree == Stats(runs, wrap) = Direct(runs, wrap)
Total == LET n == Len(Expand(runs)) IN
  SumOver(Stats(runs, wrap), LAMBDA x : x[3]) = IF n = 0 THEN 0 ELSE n - 1 + (IF wrap THEN 1 ELSE 0)
Dump == PrintT(<<"CASE", ToJson([runs |-> runs, wrap |-> wrap])>>)
=============================================================================
