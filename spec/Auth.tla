------------------------------- MODULE Auth -------------------------------
(* Authenticated encryption under attack.  The network may change, remove and
   repeat bytes anywhere, or the sender may have another key; whatever then
   reaches a receiver thread counts for nothing until a tag over it was
   verified, and a connection whose tag was wrong is dead (but what was read
   from it before is still looked at).

   c: files (what the sender has), res, strict (no excuse at the end).
   A block of a file may be written before its tag is known to be wrong: what
   an altered header (another offset, file or state) did to a file is excused
   at the end (marred), and so are the blocks of connections that waited for a tag when a sender
   was told DONE and never got it (late), if the receiver says so. Both are findings, shown strictly. *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Has(e, k) == k \in DOMAIN e
Key(e) == <<e.p, e.n>>
Names(c) == {c.files[k].name : k \in 1..Len(c.files)}
Size(c, f) == (CHOOSE k \in {c.files[j] : j \in 1..Len(c.files)} : k.name = f).size

S0(c) == [pend |-> {},      \* [k, f, off, len, good] written since the connection's last tag, with a serial number
          i |-> 0,
          sent |-> {},      \* [k, f, off, len, tags] headers sent
          empty |-> {},     \* keys with a count: empty blocks sent and not yet tagged
          nempty |-> [p \in 0..(c.np - 1) |-> 0], \* empty blocks that may be confirmed
          nver |-> [p \in 0..(c.np - 1) |-> 0],
          ver |-> {},       \* [off, len] verified
          nlog |-> 0,
          dead |-> {}, late |-> {}, marred |-> {}, tampered |-> {}, rend |-> "none", send |-> "none"]

Ok(s) == {s}
If(g, s) == IF g THEN {s} ELSE {}
Most(s, p) == s.nver[p] + s.nempty[p]
RECURSIVE Sum(_, _, _)
Sum(s, p, z) == IF p < 0 THEN z ELSE Sum(s, p - 1, z + Most(s, p))
All(c, s) == Sum(s, c.np - 1, 0)

\* every byte of it was sent as one block of this file on this connection
Honest(s, e) == \E b \in s.sent : b.k = Key(e) /\ b.f = e.f /\ b.off = e.off /\ e.len <= b.len

CpOk(c, s, p, cp) == cp.nb <= Most(s, p) /\ cp.rcv = 0

Apply(c, s, e) ==
  CASE e.e = "s_msg" /\ e.m = "FILE" ->
         Ok([s EXCEPT !.sent = @ \cup {[k |-> Key(e), f |-> e.name, off |-> e.off, len |-> e.len]},
                      !.empty = IF e.len <= 0 THEN @ \cup {[k |-> Key(e), i |-> s.i]} ELSE @,
                      !.i = @ + 1])
    [] e.e = "n_fault" -> Ok(IF e.kind \in {"rst", "fin", "stall"} THEN s ELSE [s EXCEPT !.tampered = @ \cup {Key(e)}])
    [] e.e = "r_acc" -> Ok([s EXCEPT !.pend = {b \in @ : b.k[1] # e.p}])
    [] e.e = "r_blk" ->
         IF e.p < 0 THEN Ok(s)
         ELSE Ok([s EXCEPT !.pend = @ \cup {[k |-> Key(e), i |-> s.i, f |-> e.f, off |-> e.off, len |-> e.len, good |-> e.good]},
                           !.i = @ + 1,
                           !.marred = IF e.good = 0 /\ ~Honest(s, e) THEN @ \cup {e.f} ELSE @])
    [] e.e = "d_op" -> Ok(IF e.p >= 0 /\ Key(e) \in s.tampered /\ e.op \in {"create", "resize", "truncate", "unlink", "allocate"}
                          THEN [s EXCEPT !.marred = @ \cup {e.f}] ELSE s)
    [] e.e = "r_tag" ->
         LET mine == {b \in s.pend : b.k = Key(e)}
             none == {b \in s.empty : b.k = Key(e)}
         IN IF e.ok = 1
            THEN If(Key(e) \notin s.dead /\ \A b \in mine : b.good = 1,
                    [s EXCEPT !.pend = @ \ mine, !.empty = @ \ none,
                              !.nver[e.p] = @ + Cardinality(mine), !.nempty[e.p] = @ + Cardinality(none),
                              !.late = @ \ {Key(e)},
                              !.ver = @ \cup {[off |-> b.off, len |-> b.len] : b \in mine}])
            ELSE Ok([s EXCEPT !.pend = @ \ mine, !.dead = @ \cup {Key(e)}])
    [] e.e = "r_msg" ->
         IF /\ Key(e) \notin s.dead \/ e.m = "ABORT"
            /\ e.m = "LCP" => CpOk(c, s, e.p, e.cp)
            /\ e.m = "ERR" => \A k \in 1..Len(e.cps) : CpOk(c, s, e.cps[k].port - 40001, e.cps[k])
         THEN Ok(IF e.m = "DONE" THEN [s EXCEPT !.late = @ \cup {b.k : b \in s.pend}] ELSE s)
         ELSE {}
    [] e.e = "log" /\ e.m = "BLOCK" ->
         If(/\ s.nlog < All(c, s)
            /\ e.len > 0 => \E v \in s.ver : v.off = e.off /\ v.len = e.len, [s EXCEPT !.nlog = @ + 1])
    [] e.e = "r_end" -> If(e.blocks <= All(c, s), [s EXCEPT !.rend = e.code])
    [] e.e = "s_end" -> Ok([s EXCEPT !.send = e.code])
    [] e.e = "dst" ->
         LET bad == {f \in Names(c) : ~\E k \in 1..Len(e.files) :
                        e.files[k][1] = f /\ e.files[k][2] = Size(c, f) /\ e.files[k][3] = 1}
         IN If(/\ (s.rend = "OK" \/ (c.strict /\ s.send = "OK")) => bad \subseteq (IF c.strict THEN {} ELSE s.marred)
               /\ (s.send = "OK" /\ s.rend # "OK") => bad \subseteq s.marred \cup {b.f : b \in {x \in s.sent : x.k \in s.late}}, s)
    [] OTHER -> Ok(s)
=============================================================================
