------------------------------- MODULE Chunks -------------------------------
(* Received ranges of one file (Protocol.cpp, FileChunksInfo).               *)
(* The state is the list of ranges in arrival order; Add and Merge are the   *)
(* calls that change it.  MergeSeq/RemainingSeq transcribe the code's        *)
(* algorithms, the invariants state what they must mean as sets of bytes,    *)
(* and Dump prints every state once as a test for the implementation.        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt

CONSTANTS MaxOff,      \* offsets are 0..MaxOff
          MaxChunks,   \* how many ranges are added
          MaxMerges    \* how many times Merge is called in between

VARIABLES chunks,      \* sequence of <<start, end>>, start <= end
          added,       \* history: all ranges added so far
          merges

vars == <<chunks, added, merges>>

Ranges == {<<s, e>> \in (0..MaxOff) \X (0..MaxOff) : s <= e}
Bytes(r) == {b \in 0..(MaxOff - 1) : r[1] <= b /\ b < r[2]}
Cover(seq) == UNION {Bytes(seq[i]) : i \in 1..Len(seq)}
MaxOf(a, b) == IF a > b THEN a ELSE b

---------------------------------------------------------------------------
\* the code's algorithm
RECURSIVE MergeFrom(_, _, _, _)
MergeFrom(s, i, cur, acc) ==
  IF i > Len(s) THEN Append(acc, cur)
  ELSE IF s[i][1] > cur[2] THEN MergeFrom(s, i + 1, s[i], Append(acc, cur))
  ELSE MergeFrom(s, i + 1, <<cur[1], MaxOf(cur[2], s[i][2])>>, acc)

MergeSeq(seq) ==
  IF seq = <<>> THEN <<>>
  ELSE LET s == SortSeq(seq, LAMBDA a, b : a[1] < b[1])
       IN MergeFrom(s, 2, s[1], <<>>)

RECURSIVE RemFrom(_, _, _, _, _)
RemFrom(s, i, curStart, size, acc) ==
  IF i > Len(s)
  THEN IF curStart < size THEN Append(acc, <<curStart, size>>) ELSE acc
  ELSE RemFrom(s, i + 1, s[i][2], size,
               IF s[i][1] > curStart THEN Append(acc, <<curStart, s[i][1]>>) ELSE acc)
RemainingSeq(seq, size) == RemFrom(seq, 1, 0, size, <<>>)

RECURSIVE Total(_)
Total(seq) == IF seq = <<>> THEN 0 ELSE (Head(seq)[2] - Head(seq)[1]) + Total(Tail(seq))

---------------------------------------------------------------------------
\* what it must mean
Separated(seq) == \A i \in 1..(Len(seq) - 1) : seq[i][2] < seq[i + 1][1]
Ordered(seq)   == \A i \in 1..(Len(seq) - 1) : seq[i][2] <= seq[i + 1][1]
MaxEnd(seq) == IF seq = <<>> THEN 0 ELSE CHOOSE m \in {seq[i][2] : i \in 1..Len(seq)} :
                  \A i \in 1..Len(seq) : seq[i][2] <= m

MergeRight ==
  LET m == MergeSeq(chunks) IN
    /\ Separated(m)
    /\ Cover(m) = Cover(added)
    /\ Total(m) = Cardinality(Cover(added))
PartitionRight ==
  LET m == MergeSeq(chunks) IN
    \A size \in MaxEnd(added)..MaxOff :
      LET r == RemainingSeq(m, size) IN
        /\ Ordered(r)
        /\ \A i \in 1..Len(r) : r[i][1] < r[i][2]
        /\ Cover(r) = (0..(size - 1)) \ Cover(added)
MergeIdempotent == MergeSeq(MergeSeq(chunks)) = MergeSeq(chunks)

Init == chunks = <<>> /\ added = <<>> /\ merges = 0
Add(r) == /\ Len(added) < MaxChunks
          /\ chunks' = Append(chunks, r)
          /\ added' = Append(added, r)
          /\ UNCHANGED merges
Merge == /\ merges < MaxMerges
         /\ Len(added) < MaxChunks
         /\ chunks # <<>>
         /\ chunks' = MergeSeq(chunks)
         /\ merges' = merges + 1
         /\ UNCHANGED added
Next == (\E r \in Ranges : Add(r)) \/ Merge
Spec == Init /\ [][Next]_vars

\* One test case per state: the calls' input, the bytes covered, the complement.
Case == [in |-> chunks,
         cover |-> SetToSortSeq(Cover(added), <),
         minsize |-> MaxEnd(added)]
Dump == PrintT(<<"CASE", ToJson(Case)>>)
=============================================================================
