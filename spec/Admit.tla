------------------------------- MODULE Admit -------------------------------
(* Who may write.  Connections come from the transfer's own sender and from
   anybody else; a connection is admitted by settings, its first message, that
   carry the transfer's id and a version the receiver speaks.  Only admitted
   connections cause anything at the destination, or learn anything.

   c: files (what the real sender sends), own (is there a sender of the right id?),
   must (the code with which a receiver that met only such connections ends). *)
EXTENDS Integers, Sequences, FiniteSets, TLC

NONE == "none"
Has(e, k) == k \in DOMAIN e
Key(e) == <<e.p, e.n>>
\* the first message every connection sent: [k, m, id, v]
S0(c) == [first |-> {}, acc |-> {}, refused |-> {}, bytes |-> {}]

Ok(s) == {s}
If(g, s) == IF g THEN {s} ELSE {}
First(s, k) == CHOOSE f \in s.first : f.k = k
Spoke(s, k) == \E f \in s.first : f.k = k
RightId(f) == f.m = "SETTINGS" /\ f.id = 1
Speaks(f) == f.m = "SETTINGS" /\ f.v >= 10
Admitted(s, k) == Spoke(s, k) /\ RightId(First(s, k)) /\ Speaks(First(s, k))

Names(c) == {c.files[k].name : k \in 1..Len(c.files)} \cup {".wdt.log"}

Apply(c, s, e) ==
  CASE e.e = "s_msg" ->
         IF Spoke(s, Key(e)) THEN Ok(s)
         ELSE Ok([s EXCEPT !.first = @ \cup {[k |-> Key(e), m |-> e.m, id |-> IF Has(e, "id") THEN e.id ELSE 0,
                                              v |-> IF e.m = "SETTINGS" THEN e.v ELSE 0, x |-> Has(e, "x")]}])
    [] e.e = "r_acc" -> Ok([s EXCEPT !.acc = @ \cup {Key(e)}])
    [] e.e = "r_blk" -> If(e.p < 0 \/ (Admitted(s, Key(e)) /\ e.good = 1), s)
    [] e.e = "d_op" -> If(e.p < 0 \/ e.op \notin {"create", "open", "resize", "truncate", "unlink", "allocate"} \/ Admitted(s, Key(e)), s)
    [] e.e = "r_msg" ->
         CASE e.m \in {"CHUNKS", "LIST", "ACK", "DONE", "ERR", "WAIT"} -> If(Admitted(s, Key(e)), s)
           [] e.m = "ABORT" /\ e.code = 12 ->
                If(Spoke(s, Key(e)) /\ First(s, Key(e)).m = "SETTINGS" /\ ~RightId(First(s, Key(e))),
                   [s EXCEPT !.refused = @ \cup {"ID_MISMATCH"}])
           [] e.m = "ABORT" /\ e.code = 16 ->
                If(Spoke(s, Key(e)) /\ First(s, Key(e)).m = "SETTINGS" /\ (~Speaks(First(s, Key(e))) \/ c.rv < 10),
                   [s EXCEPT !.refused = @ \cup {"VERSION_INCOMPATIBLE"}])
           [] OTHER -> Ok(s)
    \* a receiver that met only strangers says so, after it told them
    [] e.e = "r_end" -> If(/\ c.must # NONE => e.code = c.must
                           /\ c.must \in {"ID_MISMATCH", "VERSION_INCOMPATIBLE"} => c.must \in s.refused
                           /\ (~c.own => e.code # "OK" /\ e.blocks = 0 /\ e.bytes = 0), s)
    [] e.e = "s_end" -> If(c.must # NONE => e.code = c.must, s)
    [] e.e = "dst" -> If(\A k \in 1..Len(e.files) : e.files[k][1] \in Names(c) /\ (c.own \/ e.files[k][1] = ".wdt.log"), s)
    [] OTHER -> Ok(s)
=============================================================================
