------------------------------- MODULE Abort -------------------------------
(* What follows an abort.  Once an end has been told to abort (by its application
   or by its peer), each of its threads finishes at most the step it is in,
   the end reports within c.limit milliseconds, and not as a success unless
   everything had been done; an abort received from the peer is reported with
   the peer's reason.  c: np, limit. *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Has(e, k) == k \in DOMAIN e
MISMATCH == 11
Names == <<"OK", "ERROR", "ABORT", "CONN_ERROR", "CONN_ERROR_RETRYABLE",
          "SOCKET_READ_ERROR", "SOCKET_WRITE_ERROR", "BYTE_SOURCE_READ_ERROR", "FILE_WRITE_ERROR", "MEMORY_ALLOCATION_ERROR",
          "PROTOCOL_ERROR", "VERSION_MISMATCH", "ID_MISMATCH", "CHECKSUM_MISMATCH", "RESOURCE_NOT_FOUND",
          "ABORTED_BY_APPLICATION", "VERSION_INCOMPATIBLE", "NOT_FOUND", "QUOTA_EXCEEDED", "FEWER_PORTS",
          "URI_PARSE_ERROR", "INCONSISTENT_DIRECTORY", "INVALID_LOG", "INVALID_CHECKPOINT", "NO_PROGRESS",
          "TRANSFER_LOG_ACQUIRE_ERROR", "WDT_TIMEOUT", "UNEXPECTED_CMD_ERROR", "ENCRYPTION_ERROR", "ALREADY_EXISTS",
          "GLOBAL_CHECKPOINT_ABORT", "INVALID_REQUEST", "SENDER_START_TIMED_OUT", "AUTH_ERROR">>
Ports(c) == 0..(c.np - 1)
Sides == {"s", "r"}
Zero(c) == [p \in Ports(c) |-> 0]
\* at: time of the first abort of each end, or -1; what each port did since
S0(c) == [at |-> [x \in Sides |-> -1], told |-> "", mine |-> FALSE, conns |-> Zero(c), sent |-> Zero(c), dones |-> Zero(c), accs |-> Zero(c), blks |-> Zero(c),
          ended |-> [x \in Sides |-> FALSE]]

Ok(s) == {s}
If(g, s) == IF g THEN {s} ELSE {}
More(s, e, f, x, most) == IF s.at[x] < 0 THEN Ok(s) ELSE If(s[f][e.p] < most, [s EXCEPT ![f][e.p] = @ + 1])
Told(s, x, t) == [s EXCEPT !.at[x] = IF @ < 0 THEN t ELSE @]

Apply(c, s, e) ==
  CASE e.e = "abort" -> Ok([s EXCEPT !.mine = @ \/ e.side = "s"])
    [] e.e = "aborted" -> Ok(Told(s, e.side, e.t))
    [] e.e = "s_conn" -> More(s, e, "conns", "s", 1)
    [] e.e = "s_msg" /\ e.m = "FILE" -> More(s, e, "sent", "s", 1)
    [] e.e = "s_msg" /\ e.m = "DONE" -> More(s, e, "dones", "s", 1)
    [] e.e = "r_acc" -> More(s, e, "accs", "r", 1)
    [] e.e = "r_blk" /\ e.p >= 0 -> More(s, e, "blks", "r", 1)
    [] e.e = "s_got" /\ e.m = "ABORT" /\ e.code # MISMATCH -> Ok([s EXCEPT !.told = IF @ = "" /\ ~s.mine THEN Names[e.code + 1] ELSE @])
    [] e.e = "s_end" -> If(/\ s.at["s"] >= 0 => e.t - s.at["s"] <= c.limit
                           /\ s.told # "" => e.code # "OK" /\ (~s.mine => e.remote = s.told),
                           [s EXCEPT !.ended["s"] = TRUE])
    [] e.e = "r_end" -> If(s.at["r"] >= 0 => e.t - s.at["r"] <= c.limit, [s EXCEPT !.ended["r"] = TRUE])
    [] e.e = "quiet" -> If(e.conns = 0 /\ e.files = 0, s)
    [] OTHER -> Ok(s)
=============================================================================
