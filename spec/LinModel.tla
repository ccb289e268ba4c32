------------------------------ MODULE LinModel ------------------------------
(* Threads running programs of operations over an object given by S0 and Step
   (see LinTrace): every interleaving of calls, effects and returns. *)
EXTENDS Integers, Sequences, TLC, Json

CONSTANTS S0(_), Step(_, _, _, _), After(_, _), Cases

VARIABLES cs,    \* the case: configuration and one program per thread
          s, p, rest

mvars == <<cs, s, p, rest>>

MIdle == [ph |-> "idle"]

MInit == /\ cs \in Cases
         /\ s = S0(cs.cfg)
         /\ p = [t \in DOMAIN cs.prog |-> MIdle]
         /\ rest = cs.prog

MCall(t) == /\ p[t].ph = "idle" /\ rest[t] # <<>>
            /\ p' = [p EXCEPT ![t] = [ph |-> "called", op |-> Head(rest[t]), top |-> Head(rest[t])]]
            /\ rest' = [rest EXCEPT ![t] = Tail(@)]
            /\ UNCHANGED <<cs, s>>

\* an effect and, where it finishes the operation, its return
MEffect(t) == /\ p[t].ph = "called"
              /\ \E o \in Step(cs.cfg, s, t, p[t].op) :
                   /\ s' = o.s
                   /\ IF "r" \in DOMAIN o
                      THEN /\ p' = [p EXCEPT ![t] = MIdle]
                           /\ rest' = [rest EXCEPT ![t] = After(p[t].top, o.r) \o @]
                      ELSE /\ p' = [p EXCEPT ![t].op = o.op]
                           /\ UNCHANGED rest
              /\ UNCHANGED cs

MDone == \A t \in DOMAIN p : p[t].ph = "idle" /\ rest[t] = <<>>

MNext == \/ \E t \in DOMAIN p : MCall(t) \/ MEffect(t)
         \/ MDone /\ UNCHANGED mvars
MSpec == MInit /\ [][MNext]_mvars
MPrint == (\A t \in DOMAIN p : p[t].ph = "idle" /\ rest[t] = cs.prog[t]) =>
             PrintT(<<"CASE", ToJson(cs)>>)
=============================================================================
