------------------------------ MODULE CryptMC ------------------------------
(* Streams cut at every point that matters, and a reader that goes through them
   tag by tag: it waits for a tag only when it has to have what follows, and a
   tag read before the time ran out is not read again. Whatever it returns must
   be allowed by Crypt; each complete run is a case for the real sockets. *)
EXTENDS Crypt, TLC, Json
CONSTANTS Ts, Ns, Rounds, Skips, Reads
VARIABLES r, s, m, fin, ok

Pts(x) == {At(x, i) : i \in 0..(x.n - 1)} \cup {At(x, i) + 1 : i \in 0..(x.n - 1)} \cup {At(x, i) - 5 : i \in 0..(x.n - 1)}
          \cup {1, Front(x), Total(x) - 3, Total(x)}
\* the k-th point after d (the last one if there are not so many)
RECURSIVE Point(_, _, _)
Point(x, d, k) == LET later == {q \in Pts(x) : q > d} IN
  IF later = {} THEN d ELSE IF k = 0 THEN d ELSE Point(x, CHOOSE q \in later : \A y \in later : q <= y, k - 1)

Cfg(t, v, n, w) == [enc |-> "gcm", tag |-> t, iv |-> v * t, n |-> n, ws |-> IF w = n THEN <<n>> ELSE <<w, n>>, wl |-> <<>>,
                    tamper |-> [at |-> 0, kind |-> "none"], ops |-> <<>>, res |-> <<>>]
Start == [p |-> 0, d |-> 0, dead |-> FALSE, may |-> FALSE, tags |-> 0, bad |-> FALSE, good |-> TRUE]
\* the reader: what it has, the last tag it read, settings read, dead
M0 == [p |-> 0, last |-> 0, set |-> FALSE, dead |-> FALSE, tags |-> 0]

\* one chunk: at most k bytes, to the next tag; <<reader, bytes, go on>>
Chunk(x, a, d, k, full) ==
  LET atTag == a.p > 0 /\ a.p % x.tag = 0 /\ a.last # a.p
      tagIn == Len0(x, a.p) + 16 <= d     \* the tag is there
      ivIn == ~(Ivs(x, a.p) > Ivs(x, a.p - 1)) \/ At(x, a.p) <= d
      b == IF atTag THEN [a EXCEPT !.last = a.p, !.tags = @ + 1] ELSE a
      room == x.tag - (a.p % x.tag)
      got == Min(Min(k, room), Avail(x, d, a.p) - a.p)
  IN IF atTag /\ ~tagIn THEN <<[a EXCEPT !.dead = TRUE], 0, FALSE>>
     ELSE IF atTag /\ ~ivIn THEN <<[b EXCEPT !.dead = TRUE], 0, FALSE>>
     ELSE <<[b EXCEPT !.p = @ + got], got, full /\ got = Min(k, room) /\ got < k>>
RECURSIVE ReadM(_, _, _, _, _, _)
ReadM(x, a, d, k, full, z) ==
  LET c == Chunk(x, a, d, k, full) IN IF c[3] THEN ReadM(x, c[1], d, k - c[2], full, z + c[2]) ELSE <<c[1], z + c[2]>>
DoRead(x, a, d, k, full) ==
  IF a.dead \/ k = 0 THEN <<a, 0>>
  ELSE IF ~a.set /\ d = 0 THEN <<a, 0>>
  ELSE IF ~a.set /\ d < Front(x) THEN <<[a EXCEPT !.dead = TRUE], 0>>
  ELSE ReadM(x, [a EXCEPT !.set = TRUE], d, k, full, 0)

Do(op, a, ret) == /\ m' = a
                  /\ ok' = Ok1(r, s, op, <<ret, 1, a.tags>>)
                  /\ r' = [r EXCEPT !.ops = Append(@, op), !.res = Append(@, <<ret, 1, a.tags>>)]
                  /\ s' = Next1(r, s, op, <<ret, 1, a.tags>>)
D(k) == LET q == Point(r, s.d, k) IN Do(<<"d", q - s.d>>, m, q)
R(k, full) == LET c == DoRead(r, m, s.d, Min(k, r.n - s.p), full) IN Do(<<"r", k, full>>, c[1], c[2])

None == [enc |-> "none"]
Init == r = None /\ s = Start /\ m = M0 /\ fin = 0 /\ ok = TRUE
Go == \/ /\ r = None
         /\ \E t \in Ts, v \in {0, 1, 2}, n \in Ns : \E w \in {1, n} : r' = Cfg(t, v, n, w)
         /\ UNCHANGED <<s, m, fin, ok>>
      \/ /\ r # None /\ fin = 0 /\ Len(r.ops) < 2 * Rounds
         /\ IF Len(r.ops) % 2 = 0 THEN \E k \in Skips : D(k) ELSE \E k \in Reads, full \in BOOLEAN : R(k, full)
         /\ UNCHANGED fin
      \* the rest, and the end
      \/ /\ r # None /\ Len(r.ops) >= 2 * Rounds /\ fin < 3
         /\ fin' = fin + 1
         /\ CASE fin = 0 -> D(1000)
              [] fin = 1 -> IF s.p = r.n THEN UNCHANGED <<r, s, m, ok>> ELSE R(r.n - s.p, TRUE)
              [] fin = 2 -> Do(<<"e">>, m, IF m.dead THEN 0 ELSE IF m.p = r.n THEN 1 ELSE 0)
Spec == Init /\ [][Go]_<<r, s, m, fin, ok>>

\* the reader does only what Crypt allows
Allowed == ok
\* a reader that did not lose patience within a tag gets everything
Whole == (fin = 2 /\ ~s.may) => (~m.dead /\ m.p = r.n)
Emit == (fin = 3) => PrintT(<<"CASE", ToJson([tag |-> r.tag, iv |-> r.iv, n |-> r.n, ws |-> r.ws, ops |-> r.ops])>>)
=============================================================================
