------------------------------- MODULE Dest -------------------------------
(* What a transfer may do to a destination that is not empty.

   c: files [name, size, like] (what the sender has; like: which content),
   before [name, size, like] (what was there), known (before is complete), and
   the receiver's options ow (overwrite), res (resumption), tree (by what the
   directory holds), rdel (delete extra files), skip (no writes), v.
   hidden: names the sender has but could not discover; outside: names of its files that lead out
   of the destination; fine: nothing is in the way. *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Range(q) == {q[k] : k \in 1..Len(q)}
Source(c) == {f.name : f \in Range(c.files)}
Hidden(c) == Range(c.hidden)
Was(c) == {b.name : b \in Range(c.before)}
Old(c, f) == CHOOSE b \in Range(c.before) : b.name = f
New(c, f) == CHOOSE b \in Range(c.files) : b.name = f
LogNames == {".wdt.log", ".wdt.log.bug"}
\* what was there may be replaced by what the sender sends
Replace(c) == c.ow \/ c.res
Same(x, b) == x[2] = b.size /\ x[4] = b.like

S0(c) == [listed |-> {}, gone |-> {}, made |-> {}, rend |-> "none", send |-> "none"]
Ok(s) == {s}
If(g, s) == IF g THEN {s} ELSE {}

\* a file of the sender's may be made, resized or written
May(c, s, f) == /\ ~c.skip
                /\ f \in Source(c) \ Range(c.outside)
                /\ f \notin Was(c) \/ f \in s.made \/ Replace(c)

Final(c, s, fs) ==
  LET there == {x[1] : x \in Range(fs)}
      file(f) == CHOOSE x \in Range(fs) : x[1] = f
      ok == s.send = "OK" /\ s.rend = "OK"
  IN /\ c.fine => ok
     \* nobody else's files
     /\ c.known => there \subseteq Was(c) \cup Source(c) \cup LogNames
     \* what is not the sender's is as it was, or deleted on demand
     /\ \A f \in Was(c) \ (Source(c) \cup LogNames) :
           IF f \in s.gone THEN f \notin there ELSE f \in there /\ Same(file(f), Old(c, f))
     \* what may not be replaced is as it was, whatever happened
     /\ \A f \in (Was(c) \cap Source(c)) \ LogNames :
           (c.skip \/ ~Replace(c)) => (f \in there /\ Same(file(f), Old(c, f)))
     /\ c.skip => (there \ LogNames) \cap Source(c) \subseteq Was(c)
     /\ ok =>
          \* a file that was in the way was not passed over in silence
          /\ (~c.skip /\ ~Replace(c)) => Source(c) \cap Was(c) = {}
          /\ ~c.skip => \A f \in Source(c) :
                 /\ f \in there /\ file(f)[2] = New(c, f).size
                 \* by the directory alone, what has a length is taken for what it should be
                 /\ (c.tree /\ f \in Was(c) /\ Old(c, f).size \in 1..New(c, f).size) \/ file(f)[3] = 1
          \* a directory is listed whole
          /\ (c.tree /\ c.known /\ c.v >= 13) => Was(c) \ LogNames \subseteq s.listed
          /\ (c.rdel /\ c.res /\ c.v >= 26 /\ c.hidden = <<>>) => s.listed \ Source(c) \subseteq s.gone

Apply(c, s, e) ==
  CASE e.e = "r_msg" /\ e.m = "LIST" ->
         \* only what is there, and never the log
         LET l == {f.name : f \in Range(e.files)}
         IN If(c.res /\ (c.known => l \subseteq Was(c) \ LogNames), [s EXCEPT !.listed = @ \cup l])
    \* its own log the receiver may put away
    [] e.e = "d_op" /\ e.op \in {"unlink", "rename"} /\ e.p < 0 -> If(e.f \in LogNames \cup {".wdt.log>.wdt.log.bug"}, s)
    [] e.e = "d_op" /\ e.op = "unlink" ->
         If(e.f \in s.listed \ (Source(c) \cup Hidden(c) \cup LogNames) /\ c.rdel /\ ~c.skip, [s EXCEPT !.gone = @ \cup {e.f}])
    [] e.e = "d_op" /\ e.op = "create" -> If(May(c, s, e.f), [s EXCEPT !.made = @ \cup {e.f}])
    [] e.e = "d_op" /\ e.op \in {"resize", "rename"} -> If(May(c, s, e.f), s)
    [] e.e = "r_blk" -> If(e.len <= 0 \/ May(c, s, e.f), s)
    [] e.e = "r_end" -> Ok([s EXCEPT !.rend = e.code])
    [] e.e = "s_end" -> Ok([s EXCEPT !.send = e.code])
    [] e.e = "dst" -> If(Final(c, s, e.files), s)
    [] OTHER -> Ok(s)
=============================================================================
