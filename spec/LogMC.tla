------------------------------- MODULE LogMC -------------------------------
(* All short logs: what Log makes of them.  Prints them as cases. *)
EXTENDS Log, Json
CONSTANTS MaxLen, Ses  \* Ses: kinds of session
VARIABLES l, ses

Disk == [a |-> 4, b |-> 6]
H(v, rid, ip, cfg) == [m |-> "HEADER", v |-> v, rid |-> rid, ip |-> ip, cfg |-> cfg]
Cre(q, n, fs) == [m |-> "CREATE", seq |-> q, name |-> n, fs |-> fs]
Blk(q, o, n) == [m |-> "BLOCK", seq |-> q, off |-> o, len |-> n]
Big == 1000000000
Session(k) == CASE k = "log" -> [rid |-> "r", cfg |-> 1, alloc |-> TRUE, tree |-> FALSE]
                [] k = "lazy" -> [rid |-> "r", cfg |-> 0, alloc |-> FALSE, tree |-> FALSE]
                [] k = "tree" -> [rid |-> "r", cfg |-> 3, alloc |-> TRUE, tree |-> TRUE]
Good == H(2, "r", "ip", ses.cfg)
Heads == {Good, H(2, "other", "ip", ses.cfg), H(2, "r", "ip2", 4), H(2, "r", "ip", 0), H(1, "r", "ip", ses.cfg), H(2, "r", "", ses.cfg)}
Rest == {Cre(1, "a", 4), Cre(1, "a", 2), Cre(1, "a", 5), Cre(1, "c", 1), Cre(2, "b", 3), Cre(2, "a", 2), Blk(1, 0, 2), Blk(1, 2, 2), Blk(1, 3, 2), Blk(1, 1, 1), Blk(1, Big, Big),
         Blk(1, 4, 0), Blk(2, 0, 6), Blk(2, 0, 3), [m |-> "RESIZE", seq |-> 1, fs |-> 4], [m |-> "RESIZE", seq |-> 1, fs |-> 3],
         [m |-> "RESIZE", seq |-> 1, fs |-> 9], [m |-> "RESIZE", seq |-> 2, fs |-> 5], [m |-> "INVAL", seq |-> 1], [m |-> "INVAL", seq |-> 2],
         [m |-> "DIRINVAL"], [m |-> "JUNK"], [m |-> "JUNKLEN"]}

Init == l = <<>> /\ ses \in {Session(k) : k \in Ses}
Next == /\ Len(l) < MaxLen
        /\ \E e \in Rest \cup Heads : l' = Append(l, e)
        \* most begin with a header
        /\ (IF Len(l) < 2 THEN TRUE ELSE l[1] = Good)
        /\ UNCHANGED ses
Spec == Init /\ [][Next]_<<l, ses>>

P == Parse(ses, Disk, l)
R == Repaired(ses, Disk, l)
Same(p, q) == p.st = q.st /\ p.hdr = q.hdr /\ Progress(p) = Progress(q)
RepairKeeps == LET q == Parse(ses, Disk, R) IN
  CASE P.st = "OK" -> Same(P, q) /\ q.inv = {} /\ Repaired(ses, Disk, R) = R
    [] P.st = "INCONSISTENT" -> /\ q.st = "INCONSISTENT"
                                /\ LET z == Parse(ses, Disk, Append(R, Good)) IN z.st = "OK" /\ z.files = Empty /\ z.inv = {}
    [] OTHER -> q.st = "INVALID"
\* a log that was cut is no worse than the whole
CutOk == \A n \in 0..Len(l) : P.st # "INVALID" => Parse(ses, Disk, SubSeq(l, 1, n)).st # "INVALID"
\* progress, told the other way round: every byte of a file that was logged since the last time the file was created
Since(q) == {k \in 1..Len(l) : l[k].m = "CREATE" /\ l[k].seq = q}
Claimed(q) == {k \in 1..Len(l) : l[k].m = "BLOCK" /\ l[k].seq = q /\ \A c \in Since(q) : c < k}
Bytes(ch) == UNION {r[1]..r[2] - 1 : r \in ch}
ProgressMeans ==
  P.st = "OK" => \A q \in DOMAIN P.files :
    /\ Since(q) # {}
    /\ \A k \in 1..Len(l) : (\A c \in Since(q) : c < k) => ~(l[k].m = "INVAL" /\ l[k].seq = q) /\ l[k].m # "DIRINVAL"
    /\ Bytes(P.files[q].ch) = UNION {l[k].off..l[k].off + l[k].len - 1 : k \in Claimed(q)}
    /\ Bytes(P.files[q].ch) \subseteq 0..Disk[P.files[q].name] - 1
\* nobody else's
OthersReject == LET o == [ses EXCEPT !.rid = "else"] IN Progress(Parse(o, Disk, l)) = {}
CompactOk == P.st = "OK" /\ P.hdr /\ Compactable(P) =>
  LET RECURSIVE Put2(_)
      Put2(Q) == IF Q = {} THEN <<>> ELSE LET q == CHOOSE q \in Q : TRUE IN
                   <<Cre(q, P.files[q].name, P.files[q].disk), Blk(q, 0, P.files[q].disk)>> \o Put2(Q \ {q})
  IN Same(P, Parse(ses, Disk, <<Good>> \o Put2(DOMAIN P.files)))
Dump == PrintT(<<"CASE", ToJson([l |-> l, ses |-> ses])>>)
Inv == RepairKeeps /\ CutOk /\ ProgressMeans /\ OthersReject /\ CompactOk
=============================================================================
