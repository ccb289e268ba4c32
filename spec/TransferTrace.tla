--------------------------- MODULE TransferTrace ---------------------------
(* Recorded transfers checked against Transfer: every trace must have a run of
   the specification.  Several are checked at once. *)
EXTENDS Transfer, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES tr, i, s

Cfg(n) == [Traces[n].cfg EXCEPT !.bad = {Traces[n].cfg.bad[k] : k \in 1..Len(Traces[n].cfg.bad)}]
CfgM == [n \in 1..Len(Traces) |-> Cfg(n)]

Init == tr \in 1..Len(Traces) /\ i = 1 /\ s = S0(CfgM[tr])
Next == /\ i <= Len(Traces[tr].ev)
        /\ s' \in Apply(CfgM[tr], s, Traces[tr].ev[i])
        /\ i' = i + 1
        /\ UNCHANGED tr
Spec == Init /\ [][Next]_<<tr, i, s>>

Reach == TLCSet(tr, IF i > TLCGet(tr) THEN i ELSE TLCGet(tr))
Report == PrintT(<<"REACH", ToJson([n \in 1..Len(Traces) |-> TLCGet(n)])>>)
ASSUME \A n \in 1..Len(Traces) : TLCSet(n, 0)
=============================================================================
