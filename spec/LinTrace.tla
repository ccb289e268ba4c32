------------------------------ MODULE LinTrace ------------------------------
(* Validation of histories recorded from the real code against a sequential
   object given by the operators S0 and Step.  A history is a sequence of call
   and return events, in the order in which they happened; between its call
   and its return every operation takes effect atomically, in one step or (for
   operations that arrive, wait and leave) in several: Step(s, t, op) is the
   set of possible outcomes [s, r] (finished with result r) or [s, op]
   (continues as op), empty where the operation has to wait.

   A history is accepted when some choice of effects explains every returned
   value.  Effects may always be delayed until just before a return event (an
   operation that never returned may or may not have taken effect), so they
   are only tried there. *)
EXTENDS Integers, Sequences, TLC, Json

CONSTANTS S0(_), Step(_, _, _, _), Traces

VARIABLES tr, i, s, p

vars == <<tr, i, s, p>>

Ev(n) == Traces[n].ev
Cfg(n) == Traces[n].cfg
Threads(n) == {Ev(n)[k].t : k \in 1..Len(Ev(n))}

Idle == [ph |-> "idle"]

Init == /\ tr \in 1..Len(Traces)
        /\ i = 1
        /\ s = S0(Cfg(tr))
        /\ p = [t \in Threads(tr) |-> Idle]

Here == Ev(tr)[i]
More == i <= Len(Ev(tr))

Call == /\ More /\ Here.k = "c"
        /\ p[Here.t].ph = "idle"
        /\ p' = [p EXCEPT ![Here.t] = [ph |-> "called", op |-> Here.o]]
        /\ i' = i + 1
        /\ UNCHANGED <<tr, s>>

Effect == /\ More /\ Here.k = "r"
          /\ p[Here.t].ph = "called"
          /\ \E t \in DOMAIN p :
               /\ p[t].ph = "called"
               /\ \E o \in Step(Cfg(tr), s, t, p[t].op) :
                    /\ s' = o.s
                    /\ p' = [p EXCEPT ![t] = IF "r" \in DOMAIN o
                                             THEN [ph |-> "done", r |-> o.r]
                                             ELSE [ph |-> "called", op |-> o.op]]
          /\ UNCHANGED <<tr, i>>

Return == /\ More /\ Here.k = "r"
          /\ p[Here.t].ph = "done"
          /\ p[Here.t].r = Here.v
          /\ p' = [p EXCEPT ![Here.t] = Idle]
          /\ i' = i + 1
          /\ UNCHANGED <<tr, s>>

Next == Call \/ Effect \/ Return
Spec == Init /\ [][Next]_vars

(* furthest event reached, per history *)
Reach == TLCSet(tr, IF i > TLCGet(tr) THEN i ELSE TLCGet(tr))
Report == /\ PrintT(<<"REACH", ToJson([n \in 1..Len(Traces) |-> TLCGet(n)])>>)
ResetRegs == \A n \in 1..Len(Traces) : TLCSet(n, 0)
=============================================================================
