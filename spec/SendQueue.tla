------------------------------ MODULE SendQueue ------------------------------
(* The sender's bookkeeping of blocks: the queue from which the threads draw
   (util/DirectorySourceQueue) and the per-thread histories of blocks already
   sent, from which the receiver's checkpoints confirm some and return the
   others to the queue (util/ThreadTransferHistory).

   A configuration c gives the files in the order of discovery
   ([size, ok, stat]: size in units, ok: can be opened, stat: is there), the
   block size (0: whole files), what the receiver already has
   ([n, seq, size, ch]: file, sequence number, size there, chunks [from, to)),
   and whether files missing on the sender are to be deleted over there.

   Operations carry the thread's number p; op[1] names them.  Offsets and
   sizes are in units. *)
EXTENDS Integers, Sequences, FiniteSets

HDR == 10   \* header bytes the harness accounts per block sent

MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x

NoHist == [list |-> <<>>, acked |-> 0, last |-> <<>>, glob |-> FALSE, used |-> FALSE, inuse |-> TRUE,
           data |-> 0, hdr |-> 0, nb |-> 0, fails |-> 0]

SQS0(c) ==
  [q |-> {}, added |-> <<>>, called |-> FALSE, init |-> FALSE,
   next |-> 1, prevd |-> FALSE, dels |-> FALSE,
   blocks |-> 0, count |-> 0, total |-> 0, psent |-> 0,
   failed |-> [k \in 1..(Len(c.files) + Len(c.prev)) |-> 0],
   held |-> [p \in 0..(c.np - 1) |-> <<>>],
   hist |-> [p \in 0..(c.np - 1) |-> NoHist]]

\* ------------------------------------------------------------- the queue
Block(n, seq, off, size, del) ==
  [n |-> n, seq |-> seq, off |-> off, size |-> size, fails |-> 0, del |-> del,
   err |-> FALSE, data |-> 0, hdr |-> 0, nb |-> 0]

\* deletions first, then fewer failed attempts, larger, lower offset, by name
Before(a, b) ==
  IF a.del # b.del THEN a.del
  ELSE IF a.fails # b.fails THEN a.fails < b.fails
  ELSE IF a.size # b.size THEN a.size > b.size
  ELSE IF a.off # b.off THEN a.off < b.off
  ELSE a.n < b.n
Best(q) == CHOOSE a \in q : \A b \in q : a = b \/ Before(a, b)

\* pieces of [from, to) of at most bs units; an empty file is one empty piece
RECURSIVE Cut(_, _, _)
Cut(from, to, bs) ==
  IF bs = 0 \/ to - from <= bs THEN {<<from, to>>}
  ELSE {<<from, from + bs>>} \cup Cut(from + bs, to, bs)

\* what of [0, size) lies outside the sorted chunks ch
RECURSIVE Gaps(_, _, _)
Gaps(ch, at, size) ==
  IF ch = <<>> THEN IF at < size THEN {<<at, size>>} ELSE {}
  ELSE (IF at < ch[1][1] THEN {<<at, ch[1][1]>>} ELSE {}) \cup Gaps(Tail(ch), ch[1][2], size)

RECURSIVE Sum(_)
Sum(S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN (x[2] - x[1]) + Sum(S \ {x})

PrevOf(c, s, n) == IF ~s.prevd THEN {} ELSE {k \in 1..Len(c.prev) : c.prev[k].n = n}

Enqueue(c, s, n) ==
  LET size == c.files[n].size
      P    == PrevOf(c, s, n)
      pr   == c.prev[CHOOSE k \in P : TRUE]
      fresh == P = {} \/ pr.size > size
      ranges == IF fresh THEN {<<0, size>>} ELSE Gaps(pr.ch, 0, size)
      pieces == UNION {Cut(r[1], r[2], c.block) : r \in ranges}
      seq  == IF fresh THEN s.next ELSE pr.seq
      bl   == {Block(n, seq, x[1], x[2] - x[1], FALSE) : x \in pieces}
      have == IF fresh THEN 0 ELSE Sum({pr.ch[k] : k \in 1..Len(pr.ch)})
  IN IF ranges = {} THEN [s EXCEPT !.psent = @ + have]
     ELSE [s EXCEPT !.q = @ \cup bl, !.next = IF fresh THEN @ + 1 ELSE @,
                    !.blocks = @ + Cardinality(pieces), !.count = @ + 1,
                    !.total = @ + Sum(ranges), !.psent = @ + have]

RECURSIVE EnqueueAll(_, _, _)
EnqueueAll(c, s, l) == IF l = <<>> THEN s ELSE EnqueueAll(c, Enqueue(c, s, Head(l)), Tail(l))

\* files the receiver has and the sender has not found
Deletions(c, s) ==
  IF ~c.del \/ ~s.init \/ ~s.prevd \/ c.prev = <<>> \/ s.dels THEN s
  ELSE LET D == {k \in 1..Len(c.prev) : \A j \in 1..Len(s.added) : s.added[j] # c.prev[k].n}
       IN [s EXCEPT !.q = @ \cup {Block(c.prev[k].n, c.prev[k].seq, 0, 0, TRUE) : k \in D},
                    !.count = @ + Cardinality(D), !.blocks = @ + Cardinality(D), !.dels = TRUE]

\* what the receiver is told to do about the block's file: [status, sequence number it replaces]
Alloc(c, s, b) ==
  LET P == PrevOf(c, s, b.n)  pr == c.prev[CHOOSE k \in P : TRUE] IN
  IF b.del THEN <<"delete", 0>>
  ELSE IF P = {} THEN <<"new", 0>>
  ELSE IF pr.size > c.files[b.n].size THEN <<"large", pr.seq>>
  ELSE IF pr.size < c.files[b.n].size THEN <<"small", 0>> ELSE <<"same", 0>>

AnyFailed(s) == \E k \in DOMAIN s.failed : s.failed[k] > 0

\* ------------------------------------------------------------- histories
\* a block that was not confirmed: rcv of its units arrived
Unconfirmed(h, b, rcv) ==
  IF b.err
  THEN [h |-> [h EXCEPT !.data = @ + rcv],
        b |-> [b EXCEPT !.data = @ + rcv, !.off = @ + rcv, !.size = @ - rcv]]
  ELSE [h |-> [h EXCEPT !.data = @ - (b.size - rcv), !.hdr = @ - b.hdr, !.nb = @ - 1, !.fails = @ + 1],
        b |-> [b EXCEPT !.data = @ - (b.size - rcv), !.hdr = 0, !.nb = @ - 1, !.fails = @ + 1, !.err = TRUE,
                        !.off = @ + rcv, !.size = @ - rcv]]

\* units of block b that checkpoint k = [nb, seq, off, rcv, sid] declares received
Declared(k, b) == IF k.sid /\ (k.seq # b.seq \/ k.off # b.off) THEN 0 ELSE k.rcv

Verdict(h, k, global) ==
  IF k.nb > Len(h.list) THEN "INVALID_CHECKPOINT"
  ELSE IF h.last = <<>> THEN "OK"
  ELSE LET l == h.last[1] IN
       IF k.nb < l.nb THEN "INVALID_CHECKPOINT"
       ELSE IF k.nb > l.nb THEN "OK"
       ELSE IF k.seq = l.seq /\ k.off = l.off
            THEN IF k.rcv = 0 \/ k.rcv = l.rcv THEN IF global THEN "OK" ELSE "NO_PROGRESS"
                 ELSE IF k.sid /\ l.rcv > 0 THEN "INVALID_CHECKPOINT" ELSE "OK"
            ELSE IF k.rcv = 0 /\ ~global THEN "NO_PROGRESS" ELSE "OK"

\* the blocks after the k.nb confirmed ones go back; the partial count belongs to the first of them
RECURSIVE GiveBack(_, _, _, _)
GiveBack(h, k, n, acc) ==
  IF Len(h.list) = n THEN [h |-> h, back |-> acc]
  ELSE LET L == Len(h.list)
           b == h.list[L]
           u == Unconfirmed(h, b, IF L = n + 1 /\ k # <<>> THEN Declared(k[1], b) ELSE 0)
       IN GiveBack([u.h EXCEPT !.list = SubSeq(@, 1, L - 1)], k, n, acc \cup {u.b})

Checkpoint(s, p, k, global) ==
  LET h == s.hist[p]
      v == Verdict(h, k, global)
      g == GiveBack([h EXCEPT !.glob = @ \/ global, !.last = <<k>>, !.acked = k.nb,
                              !.used = @ \/ (global /\ Len(h.list) > k.nb)], <<k>>, k.nb, {})
  IN IF v = "INVALID_CHECKPOINT" THEN [s |-> s, r |-> v]
     ELSE [s |-> [s EXCEPT !.hist[p] = g.h, !.q = @ \cup g.back], r |-> v]

\* ------------------------------------------------------------- operations
\* (named apart from Coord's: the modules are never used together)
Ret(s, r) == {[s |-> s, r |-> r]}
Then(s, op) == {[s |-> s, op |-> op]}

Ck(op) == [nb |-> op[3], seq |-> op[4], off |-> op[5], rcv |-> op[6], sid |-> op[7] = 1]

SQStep(c, s, t, op) ==
  LET p == op[2] IN
  CASE op[1] = "build" ->
         IF s.called THEN Ret(s, FALSE) ELSE Then([s EXCEPT !.called = TRUE], <<"building", 0, 1>>)
    [] op[1] = "building" ->
         LET k == op[3] IN
         IF k > Len(c.files) THEN Ret(Deletions(c, [s EXCEPT !.init = TRUE]), TRUE)
         ELSE IF ~c.files[k].stat
              THEN Then([s EXCEPT !.failed[k] = @ + 1], <<"buildend", 0>>)
              ELSE Then(Enqueue(c, [s EXCEPT !.added = Append(@, k)], k), <<"building", 0, k + 1>>)
    [] op[1] = "buildend" -> Ret(Deletions(c, [s EXCEPT !.init = TRUE]), FALSE)
    [] op[1] = "prev" ->
         LET nx == IF c.prev = <<>> THEN 0 ELSE MaxOf({0} \cup {c.prev[k].seq + 1 : k \in 1..Len(c.prev)})
             u == [s EXCEPT !.next = nx, !.total = 0, !.count = 0, !.blocks = 0, !.q = {}, !.prevd = TRUE]
         IN Ret(Deletions(c, EnqueueAll(c, u, s.added)), "ok")
    [] op[1] = "after" -> IF s.prevd THEN Ret(s, "ok") ELSE {}
    [] op[1] = "get" ->
         LET st == IF AnyFailed(s) THEN "ERROR" ELSE "OK" IN
         IF s.q = {} THEN IF s.init THEN Ret(s, <<"none", st>>) ELSE {}
         ELSE LET b == Best(s.q)
                  u == [s EXCEPT !.q = @ \ {b}]
              IN IF b.del \/ c.files[b.n].ok
                 THEN Ret([u EXCEPT !.held[p] = <<IF b.del THEN b ELSE [b EXCEPT !.err = FALSE]>>],
                          <<"b", b.n, b.seq, b.off, b.size>> \o Alloc(c, s, b) \o <<st>>)
                 ELSE Then(u, <<"getfail", p, b.n>>)
    [] op[1] = "getfail" -> Then([s EXCEPT !.failed[op[3]] = @ + 1], <<"get", p>>)
    [] op[1] = "back" -> Ret([s EXCEPT !.q = @ \cup {s.held[p][1]}, !.held[p] = <<>>], "ok")
    [] op[1] = "add" ->
         LET b0 == s.held[p][1]
             good == op[3] = "ok"
             b == IF good THEN [b0 EXCEPT !.data = @ + b0.size, !.hdr = @ + HDR, !.nb = @ + 1]
                          ELSE [b0 EXCEPT !.err = TRUE, !.fails = @ + 1]
             h0 == s.hist[p]
             h == IF good THEN [h0 EXCEPT !.data = @ + b0.size, !.hdr = @ + HDR, !.nb = @ + 1]
                          ELSE [h0 EXCEPT !.fails = @ + 1]
         IN IF h.glob
            THEN \* too late: the checkpoint's partial count is this block's if no earlier block took it
                 LET rcv == IF h.last = <<>> \/ h.used THEN 0 ELSE Declared(h.last[1], b)
                     u == Unconfirmed(h, b, rcv)
                 IN Ret([s EXCEPT !.held[p] = <<>>, !.hist[p] = [u.h EXCEPT !.last = <<>>], !.q = @ \cup {u.b}], FALSE)
            ELSE Ret([s EXCEPT !.held[p] = <<>>, !.hist[p] = [h EXCEPT !.list = Append(@, b)]], TRUE)
    [] op[1] = "loc" -> LET x == Checkpoint(s, p, Ck(op), FALSE) IN Ret(x.s, x.r)
    [] op[1] = "glob" -> \* also waits until the thread is done with its history
         Then(Checkpoint(s, p, Ck(op), TRUE).s, <<"globwait", p>>)
    [] op[1] = "globwait" -> IF s.hist[p].inuse THEN {} ELSE Ret(s, "ok")
    [] op[1] = "leave" -> Ret([s EXCEPT !.hist[p].inuse = FALSE], "ok")
    [] op[1] = "isglob" -> Ret(s, s.hist[p].glob)
    [] op[1] = "acked" -> Ret(s, s.hist[p].acked)
    [] op[1] = "all" -> Ret([s EXCEPT !.hist[p].acked = Len(s.hist[p].list)], "ok")
    [] op[1] = "unacked" -> \* whatever was not confirmed goes back, always
         LET h == s.hist[p]
             k == [nb |-> h.acked, seq |-> 0, off |-> 0, rcv |-> 0, sid |-> FALSE]
             g == GiveBack([h EXCEPT !.last = <<k>>], <<k>>, h.acked, {})
         IN Ret([s EXCEPT !.hist[p] = g.h, !.q = @ \cup g.back], "ok")
    [] op[1] = "mismatch" -> \* a version mismatch: all histories are given back, if nothing was
                           \* confirmed yet; else an error, with any number of the others given back
         LET P == DOMAIN s.hist
             RECURSIVE Do(_, _)
             Do(u, X) == IF X = {} THEN u
                         ELSE LET x == MaxOf(X)
                                  h == u.hist[x]
                                  k == [nb |-> 0, seq |-> 0, off |-> 0, rcv |-> 0, sid |-> FALSE]
                                  g == GiveBack([h EXCEPT !.last = <<k>>], <<k>>, 0, {})
                              IN Do([u EXCEPT !.hist[x] = g.h, !.q = @ \cup g.back], X \ {x})
             Z == {x \in P : s.hist[x].acked = 0}
         IN IF Z = P THEN Ret(Do(s, P), "OK") ELSE {[s |-> Do(s, X), r |-> "ERROR"] : X \in SUBSET Z}
    [] op[1] = "pop" ->
         LET h == s.hist[p] IN
         Ret([s EXCEPT !.hist[p].list = <<>>],
             [k \in 1..Len(h.list) |-> LET b == h.list[Len(h.list) + 1 - k] IN <<b.n, b.data, b.nb, b.fails>>])
    [] op[1] = "tstats" -> LET h == s.hist[p] IN Ret(s, <<h.data, h.hdr, h.nb, h.fails>>)
    [] op[1] = "stat" -> Ret(s, <<s.blocks, IF AnyFailed(s) THEN "BYTE_SOURCE_READ_ERROR" ELSE "OK">>)
    [] op[1] = "totals" -> Ret(s, <<s.count, s.total, s.psent>>)
    [] op[1] = "fin" -> Ret(s, s.init /\ s.q = {})
    [] op[1] = "disc" -> Ret(s, s.init)
    [] op[1] = "failed" -> \* what was never delivered, at the end
         Ret([s EXCEPT !.q = {}],
             [k \in DOMAIN s.failed |-> s.failed[k] + Cardinality({b \in s.q : b.n = k})])
=============================================================================
