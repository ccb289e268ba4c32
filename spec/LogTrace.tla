--------------------------- MODULE LogTrace ---------------------------
(* Recorded transfers checked against Log: every trace must have a run of
   the specification.  Several are checked at once. *)
EXTENDS Log, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES tr, i, s

CfgM == [n \in 1..Len(Traces) |-> Traces[n].cfg]

Init == tr \in 1..Len(Traces) /\ i = 1 /\ s = S0(CfgM[tr])
Next == /\ i <= Len(Traces[tr].ev)
        /\ s' \in Apply(CfgM[tr], s, Traces[tr].ev[i])
        /\ i' = i + 1
        /\ UNCHANGED tr
Spec == Init /\ [][Next]_<<tr, i, s>>

Reach == TLCSet(tr, IF i > TLCGet(tr) THEN i ELSE TLCGet(tr))
Report == PrintT(<<"REACH", ToJson([n \in 1..Len(Traces) |-> TLCGet(n)])>>)
ASSUME \A n \in 1..Len(Traces) : TLCSet(n, 0)
=============================================================================
