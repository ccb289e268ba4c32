------------------------------ MODULE LogJudge ------------------------------
(* What the real log manager did with a log (records of harness/logs.cpp). *)
EXTENDS Log

Entries(a, from) == {a[k] : k \in from..Len(a)}
Starts(a, l) == Len(a) >= Len(l) /\ SubSeq(a, 1, Len(l)) = l
\* the repaired log, the order of the invalidations aside
IsRepaired(s, size, l, a) ==
  LET p == Parse(s, size, l)
      r == Repaired(s, size, l)
  IN Len(a) = Len(r) /\ Starts(a, l) /\ Entries(a, Len(l) + 1) = Entries(r, Len(l) + 1)
\* printing looks at one entry after the other only
RECURSIVE Printable(_, _)
Printable(h, l) ==
  l = <<>> \/ LET e == l[1] IN
    CASE e.m = "HEADER" -> e.v = VERSION /\ e.ip # "" /\ Printable(TRUE, Tail(l))
      [] e.m = "DIRINVAL" -> Printable(h, Tail(l))
      [] e.m \in {"CREATE", "BLOCK", "RESIZE", "INVAL"} -> h /\ Printable(h, Tail(l))
      [] OTHER -> FALSE

AsSet2(x) == {x[k] : k \in 1..Len(x)}
\* r.torn: an unfinished entry at the end, r.gone: it is not there any more
OkMatch(r) == LET p == Parse(r.ses, r.size, r.l) IN
  /\ r.st = p.st
  /\ AsSet2(r.prog) = Progress(p) /\ Len(r.prog) = Cardinality(Progress(p))
  /\ r.ver # "-" => r.ver = (IF p.st = "INVALID" THEN "0" ELSE IF p.ip = "" \/ p.ip = r.ip THEN "1" ELSE "0")
  /\ LET full == IF r.ver = "0" /\ p.st # "INVALID" THEN SubSeq(r.after, 1, Len(r.after) - 1) ELSE r.after IN
     /\ IsRepaired(r.ses, r.size, r.l, full)
     /\ (r.ver = "0" /\ p.st # "INVALID") => r.after # <<>> /\ r.after[Len(r.after)] = [m |-> "DIRINVAL"]
  /\ (r.torn = 1 /\ p.st # "INVALID") => r.gone = 1
  /\ (r.torn = 1 /\ p.st = "INVALID") => r.gone = 0
\* an unfinished entry is no reason to say that the log cannot be read, and printing changes nothing
OkPrint(r) == r.ok = (IF Printable(FALSE, r.l) THEN 1 ELSE 0) /\ r.after = r.l /\ (r.torn = 1 => r.gone = 0)
\* a session: header, entries, in the order in which they were given
OkWrite(r) == LET p == Parse(r.ses, r.size, r.l) IN
  p.st # "INVALID" => LET n == Len(r.after) - Len(r.w) - 1 IN
    /\ n >= Len(r.l) /\ IsRepaired(r.ses, r.size, r.l, SubSeq(r.after, 1, n))
    /\ r.after[n + 1] = [m |-> "HEADER", v |-> VERSION, rid |-> r.ses.rid, ip |-> p.ip, cfg |-> r.ses.cfg]
    /\ SubSeq(r.after, n + 2, Len(r.after)) = r.w
\* the meaning of the log after compaction is what it was
OkCompact(r) ==
  LET p == Parse(r.ses, r.size, r.l)
      q == Parse(r.ses, r.size, r.after)
      o == [r.ses EXCEPT !.rid = "else"]
  IN /\ Progress(q) = Progress(p)
     /\ (p.st = "OK" /\ p.hdr) => q.st = "OK" /\ q.hdr /\ q.ip = p.ip /\ Progress(Parse(o, r.size, r.after)) = {}
                                  /\ (r.after # <<>> => Parse(o, r.size, r.after).st # "OK")
     /\ p.st # "OK" => q.st = p.st

Ok(r) == CASE r.op = "match" -> OkMatch(r)
           [] r.op = "print" -> OkPrint(r)
           [] r.op = "write" -> OkWrite(r)
           [] r.op = "compact" -> OkCompact(r)
           [] OTHER -> FALSE
=============================================================================
