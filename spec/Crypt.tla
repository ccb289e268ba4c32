------------------------------- MODULE Crypt -------------------------------
(* The encrypted stream between two sockets, byte by byte.

   r: enc, tag (bytes of plain text between tags, 0 without), iv (bytes under one
   initialization vector, 0: any number), n (bytes written), ws (written so far,
   after every write), wl (what the wire held then, and at the end), tamper
   [at, kind] (the
   first byte that differs; kind "none" without), ops (what was done at the reading end:
   <<"d">>, <<"r", n, full>>, <<"e">>) and res (<<ret, good, tags>>: what came of it,
   was it what was written, tags verified so far). *)
EXTENDS Integers, Sequences, FiniteSets

Front(r) == IF r.enc = "none" THEN 0 ELSE 23
T(r) == IF r.enc = "gcm" THEN r.tag ELSE 0
End(r) == IF r.enc = "gcm" THEN 16 ELSE 0
Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b

\* tags before byte i (from 0) of the plain text: one at every full interval
Tags(r, i) == IF T(r) = 0 THEN 0 ELSE i \div T(r)
\* an initialization vector serves as many whole intervals as fit, at least one
Per(r) == Max(1, r.iv \div T(r))
Ivs(r, i) == IF T(r) = 0 \/ r.iv = 0 THEN 0 ELSE Tags(r, i) \div Per(r)
\* where byte i is on the wire
At(r, i) == Front(r) + i + 16 * (Tags(r, i) + Ivs(r, i))
\* the wire after the first k bytes
Len0(r, k) == IF k = 0 THEN Front(r) ELSE At(r, k - 1) + 1
Total(r) == Len0(r, r.n) + End(r)

\* how many i of lo..hi-1 are the first so many for which At(r, i) < d (At grows with i)
RECURSIVE Search(_, _, _, _)
Search(r, d, lo, hi) == IF lo >= hi THEN lo
                        ELSE LET i == (lo + hi) \div 2 IN IF At(r, i) < d THEN Search(r, d, i + 1, hi) ELSE Search(r, d, lo, i)
\* of the 16 bytes of an initialization vector the cipher takes the first 12
Unused(r) == r.enc = "gcm" /\ r.tamper.kind = "flip"
             /\ \/ r.tamper.at \in 15..18
                \/ LET i == Search(r, r.tamper.at, 0, r.n) IN
                     i > 0 /\ i < r.n /\ Ivs(r, i) > Ivs(r, i - 1) /\ r.tamper.at \in (At(r, i) - 4)..(At(r, i) - 1)
Kind(r) == IF Unused(r) THEN "none" ELSE r.tamper.kind
\* bytes of plain text that can be had when d bytes have come
Avail(r, d, i) == Search(r, d, i, r.n)
\* the bytes that came end within something that is not plain text
Between(r, d) == d > 0 /\ d < Total(r) /\ LET i == Avail(r, d, 0) IN ~(i < r.n /\ At(r, i) = d)

\* where tag k (from 1) ends on the wire
TagEnd(r, k) == Front(r) + k * T(r) + 16 * (k + Ivs(r, k * T(r) - 1))
RECURSIVE SearchTag(_, _, _, _)
SearchTag(r, q, lo, hi) == IF lo >= hi THEN lo
                           ELSE LET k == (lo + hi + 1) \div 2 IN IF TagEnd(r, k) <= q THEN SearchTag(r, q, k, hi) ELSE SearchTag(r, q, lo, k - 1)
\* the first so many tags are wholly before the byte at position q on the wire
TagsBefore(r, q) == IF T(r) = 0 THEN 0 ELSE SearchTag(r, q, 0, (r.n - 1) \div T(r))
\* nothing after the first tag that was broken is ever read
Wall(r) == IF Kind(r) = "none" \/ T(r) = 0 THEN r.n
           ELSE IF r.tamper.at < Front(r) THEN r.n + 100000
           ELSE (TagsBefore(r, r.tamper.at) + 1) * T(r)

Wire(r) == CASE Kind(r) = "drop" -> Total(r) - 1
             [] Kind(r) = "dup" -> Total(r) + 1
             [] Kind(r) = "cut" -> r.tamper.at
             [] OTHER -> Total(r)

\* s: p bytes read, d bytes came, the socket is dead, surely or maybe
\* nobody asks for more than was written: the far end says how much there is
Want(r, s, op) == IF op[1] = "r" THEN <<"r", Min(op[2], r.n - s.p), op[3]>> ELSE op
Ok1(r, s, op0, x) ==
  LET op == Want(r, s, op0) ret == x[1]  good == x[2] = 1  tags == x[3]
      safe == Kind(r) = "none" \/ s.d <= r.tamper.at
      A == Avail(r, s.d, s.p) - s.p
      p1 == s.p + Max(ret, 0)
      tagsOk == IF safe THEN tags \in {Tags(r, Max(0, p1 - 1)), Tags(r, p1)} \/ ((ret <= 0 \/ s.may \/ (op[3] /\ A < op[2] /\ Between(r, s.d))) /\ tags <= Tags(r, Avail(r, s.d, s.p)))
                ELSE r.enc = "gcm" => tags <= TagsBefore(r, r.tamper.at)
  IN CASE op[1] = "d" -> ret = Min(Wire(r), s.d + op[2]) /\ tags = s.tags
       [] op[1] = "r" ->
            /\ ret <= op[2] /\ tagsOk /\ tags >= s.tags
            /\ s.dead => ret <= 0
            /\ safe => /\ good /\ ret <= A
                       /\ ~s.may => (ret <= 0 => (A = 0 \/ op[2] = 0 \/ (op[3] /\ A < op[2] /\ Between(r, s.d))))
                       /\ ~s.may /\ op[3] /\ A >= op[2] => ret = op[2]
            /\ (~safe /\ r.enc = "gcm") => p1 <= Wall(r)
       [] op[1] = "e" ->
            \* the end is believed exactly if nothing was altered or is missing; the tag
            \* that follows a full interval says as much of what came before it;
            \* of an altered stream it is never believed with anything wrong in it
            \* (nobody asks for the end after a read that failed)
            LET inner == T(r) > 0 /\ s.p > 0 /\ s.p < r.n /\ s.p % T(r) = 0
            IN IF Kind(r) = "none"
               THEN s.may \/ inner \/ ((ret = 1) <=> (r.enc # "gcm" \/ (s.p = r.n /\ s.d = Total(r))))
               ELSE r.enc = "gcm" => (ret = 0 \/ s.p = 0 \/ s.bad \/ (s.good /\ (s.p = r.n \/ inner)))
       [] OTHER -> FALSE

Next1(r, s, op0, x) ==
  LET op == Want(r, s, op0)
      ret == x[1]
      safe == Kind(r) = "none" \/ s.d <= r.tamper.at
      A == Avail(r, s.d, s.p) - s.p
      \* a read that waited for what did not come, in the middle of a tag, gives the socket up
      short == op[1] = "r" /\ (IF op[3] THEN A < op[2] ELSE A = 0) /\ Between(r, s.d)
  IN [p |-> s.p + (IF op[1] = "r" THEN Max(ret, 0) ELSE 0), d |-> IF op[1] = "d" THEN ret ELSE s.d,
      dead |-> s.dead \/ (r.enc = "gcm" /\ ~safe /\ r.tamper.at >= Front(r) /\ op[1] = "r" /\ s.p + Max(ret, 0) >= Wall(r) /\ op[2] > Max(ret, 0) /\ op[3]),
      may |-> s.may \/ short \/ (op[1] = "r" /\ ~safe) \/ op[1] = "e", tags |-> x[3],
      good |-> s.good /\ (op[1] = "r" => x[2] = 1),
      bad |-> s.bad \/ (op[1] = "r" /\ (ret <= 0 \/ (op[3] /\ ret < op[2])))]

RECURSIVE Run(_, _, _)
Run(r, s, k) == k > Len(r.ops) \/ (Ok1(r, s, r.ops[k], r.res[k]) /\ Run(r, Next1(r, s, r.ops[k], r.res[k]), k + 1))

Layout(r) == /\ \A k \in 1..Len(r.ws) : r.wl[k] = Len0(r, r.ws[k])
             /\ r.wl[Len(r.wl)] = Total(r)
Ok(r) == Layout(r) /\ Len(r.res) = Len(r.ops) /\ Run(r, [p |-> 0, d |-> 0, dead |-> FALSE, may |-> FALSE, tags |-> 0, bad |-> FALSE, good |-> TRUE], 1)
=============================================================================
