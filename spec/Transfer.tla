------------------------------ MODULE Transfer ------------------------------
(* A whole transfer: sender threads, their connections, receiver threads, and
   what the two ends conclude.  Behaviour is a sequence of events e that an
   observer of the network, of the destination directory and of the transfer
   log can see; Apply(c, s, e) is the set of states in which the system may be
   after e (empty: the event is not possible, the implementation is wrong).

   c is what is known beforehand:
     np ports (0-based), files (sequence of [name, size]), block (bytes, 0: whole
     files), wantchk (asked for), chk, gcm, enc (checksum, tags, any encryption), wantres, res (resumption),
     prev (what the receiver has: sequence of [name, seq, size, ch]), del,
     v, sv, rv (protocol versions: agreed, sender's, receiver's), maxnp, maxret
     (retries), taken (ports the receiver may be unable to listen on), clean (nothing goes wrong), lax (an abort or a wrong peer takes
     part: only safety is judged), block lists in bytes. *)
EXTENDS Integers, Sequences, FiniteSets, TLC

SQ == INSTANCE SendQueue

Has(e, k) == k \in DOMAIN e
None == <<>>
Min(x, y) == IF x < y THEN x ELSE y

\* ------------------------------------------------------------- beforehand
Names(c) == {c.files[k].name : k \in 1..Len(c.files)}
SizeOf(c, f) == c.files[CHOOSE k \in 1..Len(c.files) : c.files[k].name = f].size

Piece(f, off, len) == [f |-> f, off |-> off, len |-> len]

Cuts(c, f, from, to) == {Piece(f, x[1], x[2] - x[1]) : x \in SQ!Cut(from, to, c.block)}

\* what the receiver says it has of f; a longer file over there counts for nothing
PrevOf(c, pr, f) == {k \in 1..Len(pr) : pr[k].name = f}
PiecesOf(c, pr, f) ==
  LET P == PrevOf(c, pr, f)
      x == pr[CHOOSE k \in P : TRUE]
  IN IF P = {} \/ x.fs > SizeOf(c, f) THEN Cuts(c, f, 0, SizeOf(c, f))
     ELSE UNION {Cuts(c, f, g[1], g[2]) : g \in SQ!Gaps(x.chunks, 0, SizeOf(c, f))}
\* [off |-> -1] marks a deletion
Deletions(c, pr) == IF ~c.del THEN {} ELSE {Piece(pr[k].name, 0, -1) : k \in {j \in 1..Len(pr) : pr[j].name \notin Names(c)}}
AllPieces(c, pr) == UNION {PiecesOf(c, pr, f) : f \in Names(c) \ c.bad} \cup Deletions(c, pr)

RECURSIVE SumLen(_)
SumLen(S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN (IF x.len > 0 THEN x.len ELSE 0) + SumLen(S \ {x})

Ports(c) == 0..(c.np - 1)
Port0 == 40001

NoCp == [nb |-> 0, seq |-> 0, off |-> 0, rcv |-> 0]

S0(c) ==
  [q |-> AllPieces(c, <<>>), all |-> AllPieces(c, <<>>), got |-> ~c.res, prev |-> <<>>, lists |-> 0, left |-> -1, taker |-> -1,
   seq |-> <<>>, abort |-> FALSE, fault |-> FALSE, started |-> FALSE, send |-> "", rend |-> "",
   \* sender threads
   st |-> [p \in Ports(c) |-> "off"], sn |-> [p \in Ports(c) |-> -1], serr |-> [p \in Ports(c) |-> FALSE],
   hist |-> [p \in Ports(c) |-> <<>>], acked |-> [p \in Ports(c) |-> 0], last |-> [p \in Ports(c) |-> None],
   glob |-> [p \in Ports(c) |-> FALSE], used |-> [p \in Ports(c) |-> FALSE], cur |-> [p \in Ports(c) |-> None],
   npr |-> [p \in Ports(c) |-> 0], cf |-> [p \in Ports(c) |-> 0], sdone |-> [p \in Ports(c) |-> FALSE],
   ver |-> [p \in Ports(c) |-> c.sv],       \* the version its settings announced
   \* what is on the way to the receiver
   ch |-> [p \in Ports(c) |-> <<>>],
   \* receiver threads
   rt |-> [p \in Ports(c) |-> "first"], rn |-> [p \in Ports(c) |-> -1], cp |-> [p \in Ports(c) |-> NoCp],
   maybe |-> [p \in Ports(c) |-> None],     \* received, its checksum not read yet
   pend |-> [p \in Ports(c) |-> <<>>],      \* received, no tag verified yet
   verified |-> {},                         \* [f, seq, off, len] confirmed on this side
   rdone |-> [p \in Ports(c) |-> FALSE],    \* was told to be done
   lclosed |-> [p \in Ports(c) |-> FALSE],
   idx |-> [p \in Ports(c) |-> 0], pidx |-> [p \in Ports(c) |-> 0], cps |-> <<>>,
   errw |-> [p \in Ports(c) |-> {}],        \* threads that could finish when p last went on from waiting
   chunked |-> [p \in Ports(c) |-> 0],      \* 1: in the exchange of chunks
   vm |-> 0,                                \* a version mismatch: 1 announced, 2 all blocks given back
   funnel |-> FALSE,                        \* the exchange of chunks is over for all
   logged |-> {}, created |-> {}, compact |-> FALSE,
   lt |-> 0,                                \* time of the last event of a connection
   down |-> [p \in Ports(c) |-> FALSE]]     \* was spoken to in plain by somebody

Ok(s) == {s}
If(g, s) == IF g THEN {s} ELSE {}

\* ------------------------------------------------------------- sender
\* the block in flight has left completely
Sent(s, p) == IF s.cur[p] = None THEN s
              ELSE IF s.glob[p] THEN [s EXCEPT !.cur[p] = None]
              ELSE [s EXCEPT !.cur[p] = None, !.hist[p] = Append(@, s.cur[p][1])]

Declared(c, k, b) == IF c.v >= 21 /\ (k.seq # b.seq \/ k.off # b.off) THEN 0 ELSE IF c.v < 16 THEN 0 ELSE k.rcv
Rest(b, rcv) == [f |-> b.f, off |-> b.off + rcv, len |-> b.len - rcv]

\* blocks after the first n go back, the first of them without what arrived of it
Returned(c, h, n, k) ==
  {Rest(h[j], IF j = n + 1 /\ h[j].len >= 0 THEN Declared(c, k, h[j]) ELSE 0) : j \in (n + 1)..Len(h)}

Verdict(c, s, p, k, global) ==
  IF k.nb > Len(s.hist[p]) \/ k.nb < 0 THEN "INVALID"
  ELSE IF s.last[p] = None THEN "OK"
  ELSE LET l == s.last[p][1] IN
       IF k.nb < l.nb THEN "INVALID"
       ELSE IF k.nb > l.nb THEN "OK"
       ELSE IF k.seq = l.seq /\ k.off = l.off
            THEN IF k.rcv = 0 \/ k.rcv = l.rcv THEN IF global THEN "OK" ELSE "NO_PROGRESS"
                 ELSE IF c.v >= 21 /\ l.rcv > 0 THEN "INVALID" ELSE "OK"
            ELSE IF k.rcv = 0 /\ ~global THEN "NO_PROGRESS" ELSE "OK"

Local(c, s, p, k) ==
  LET v == Verdict(c, s, p, k, FALSE) IN
  IF v = "INVALID" THEN {}
  ELSE Ok([s EXCEPT !.q = @ \cup Returned(c, s.hist[p], k.nb, k),
                    !.hist[p] = SubSeq(@, 1, k.nb), !.acked[p] = k.nb, !.last[p] = <<k>>,
                    !.npr[p] = IF v = "NO_PROGRESS" THEN @ + 1 ELSE 0,
                    !.st[p] = "set"])

\* another connection's thread over there ended: everything it did not confirm goes back
RECURSIVE Globals(_, _, _)
Globals(c, s, l) ==
  IF l = <<>> THEN s
  ELSE LET k == [nb |-> l[1].nb, seq |-> l[1].seq, off |-> l[1].off, rcv |-> l[1].rcv]
           p == l[1].port - Port0
           h == s.hist[p]
           n == k.nb
           inh == Len(h) > n
           fl == s.cur[p]
           \* the block in flight goes back as well; the partial count is its only if no earlier block took it
           back == IF fl = None \/ s.glob[p] THEN {}
                   ELSE {Rest(fl[1], IF inh THEN 0 ELSE Declared(c, k, fl[1]))}
           u == [s EXCEPT !.q = @ \cup Returned(c, h, n, k) \cup back,
                          !.hist[p] = SubSeq(@, 1, n), !.acked[p] = n, !.last[p] = <<k>>,
                          !.glob[p] = TRUE, !.used[p] = @ \/ inh \/ fl # None]
       IN IF Verdict(c, s, p, k, TRUE) = "INVALID" THEN Globals(c, s, Tail(l)) ELSE Globals(c, u, Tail(l))

Flags(c, s, e) == \* what the receiver is to do about the file
  LET P == PrevOf(c, s.prev, e.name)  x == s.prev[CHOOSE k \in P : TRUE] IN
  IF c.v < 13 THEN <<0, 0>>
  ELSE IF e.fl = 4 THEN <<4, 0>>
  ELSE IF ~c.res \/ P = {} THEN <<0, 0>>
  ELSE IF x.fs > e.fs THEN <<2, x.seq>> ELSE IF x.fs < e.fs THEN <<3, 0>> ELSE <<1, 0>>

SendFile(c, s0, e) ==
  LET p == e.p
      s == Sent(s0, p)
      del == e.fl = 4 /\ c.v >= 13
      b == Piece(e.name, e.off, IF del THEN -1 ELSE e.len)
      x == [f |-> b.f, seq |-> e.seq, off |-> b.off, len |-> b.len]
      k == IF s.last[p] = None THEN NoCp ELSE s.last[p][1]
      late == s.glob[p]
      seqOk == \A j \in 1..Len(s.seq) : (s.seq[j].n = e.name) <=> (s.seq[j].s = e.seq)
      prOk == LET P == PrevOf(c, s.prev, e.name)  y == s.prev[CHOOSE j \in P : TRUE] IN
              P = {} \/ del \/ IF y.fs > e.fs THEN e.seq # y.seq ELSE e.seq = y.seq
  IN IF /\ s.st[p] = "blk" /\ b \in s.q /\ s.got
        /\ (del \/ e.fs = SizeOf(c, e.name)) /\ (del => e.fs = 0 /\ e.len = 0)
        /\ Flags(c, s, e)[1] = e.fl /\ (e.fl # 2 \/ e.prev = Flags(c, s, e)[2])
        /\ seqOk /\ prOk
     THEN Ok([s EXCEPT !.q = (@ \ {b}) \cup (IF late THEN {Rest(x, IF s.used[p] THEN 0 ELSE Declared(c, k, x))} ELSE {}),
                       !.used[p] = @ \/ late,
                       !.cur[p] = <<x>>,
                       !.seq = IF \E j \in 1..Len(@) : @[j].n = e.name THEN @ ELSE Append(@, [n |-> e.name, s |-> e.seq]),
                       !.ch[p] = Append(@, [m |-> "FILE", n |-> e.n, f |-> b.f, seq |-> e.seq, off |-> b.off, len |-> b.len])])
     ELSE {}

Push(s, p, m, n) == [s EXCEPT !.ch[p] = Append(@, [m |-> m, n |-> n])]

\* the versions did not match: every thread starts again, with everything, after the first of them
\* announces the version agreed on
Restart(s) == IF s.vm # 1 THEN s
              ELSE [s EXCEPT !.vm = 2, !.q = s.all, !.hist = [p \in DOMAIN s.hist |-> None],
                             !.cur = [p \in DOMAIN s.cur |-> None]]

SMsg(c, s, e) ==
  LET p == e.p IN
  IF e.n # s.sn[p] THEN {}
  ELSE CASE e.m = "SETTINGS" ->
         LET u == IF e.v = c.v /\ c.sv > c.rv THEN Restart(s) ELSE s IN
         If(/\ s.st[p] = "set" /\ e.v = (IF u.vm = 2 THEN c.v ELSE c.sv)
            /\ e.id = 1 /\ e.chk = (IF c.wantchk /\ e.v >= 12 THEN 1 ELSE 0)
            /\ e.chunks = (IF c.wantres /\ e.v >= 13 THEN 1 ELSE 0)
            /\ (e.v >= 13 => e.noblocks = (IF c.block = 0 THEN 1 ELSE 0))
            /\ e.hb = (IF e.v >= 29 THEN 1 ELSE 0),
            [u EXCEPT !.st[p] = IF e.chunks = 1 THEN "chk" ELSE "blk", !.ver[p] = e.v,
                      !.ch[p] = Append(@, [m |-> "SETTINGS", n |-> e.n, v |-> e.v])])
    [] e.m = "FILE" -> SendFile(c, s, e)
    [] e.m = "FOOTER" -> If(c.wantchk /\ s.ver[p] >= 12 /\ s.cur[p] # None, Push(s, p, "FOOTER", e.n))
    [] e.m = "SIZE" -> LET u == Sent(s, p) IN
                       If(s.st[p] = "blk" /\ s.got /\ (c.bad # {} \/ e.size = SumLen(s.all)), Push(u, p, "SIZE", e.n))
    [] e.m = "DONE" -> LET u == Sent(s, p) IN
                       If(/\ s.st[p] = "blk" /\ s.got
                          /\ (c.bad # {} \/ (e.nb = Cardinality(s.all) /\ (c.v < 16 \/ e.bytes = SumLen(s.all))))
                          /\ (e.st = 0 \/ c.bad # {}),
                          Push([u EXCEPT !.st[p] = "fin"], p, "DONE", e.n))
    [] e.m = "ACK" -> If(s.st[p] = "chk" /\ s.got, [s EXCEPT !.st[p] = "blk"])
    [] OTHER -> {}

\* the receiver's list of what it has is complete
Learn(c, s) ==
  IF s.got \/ s.left > 0 THEN s
  ELSE LET A == AllPieces(c, s.prev) IN [s EXCEPT !.got = TRUE, !.q = A, !.all = A]

SGot(c, s, e) ==
  LET p == e.p IN
  IF e.n # s.sn[p] THEN Ok(s)  \* the rest of what an earlier connection brought
  ELSE CASE e.m = "LCP" ->
         LET k == [nb |-> e.cp.nb, seq |-> e.cp.seq, off |-> e.cp.off, rcv |-> e.cp.rcv] IN
         IF s.st[p] = "cp" THEN (IF e.cp.port = Port0 + p THEN Local(c, s, p, k) ELSE {})
         ELSE If(s.st[p] \in {"chk", "fin", "blk"}, IF k.nb = 0 /\ k.rcv = 0 THEN s ELSE [s EXCEPT !.st[p] = "end"])
    [] e.m = "WAIT" -> IF s.st[p] = "fin" THEN Ok([s EXCEPT !.acked[p] = Len(s.hist[p])]) ELSE Ok(s)
    [] e.m = "ACK" -> IF s.st[p] = "chk" THEN If(s.got, [s EXCEPT !.st[p] = "blk"]) ELSE Ok(s)
    [] e.m = "CHUNKS" -> IF s.st[p] # "chk" THEN Ok(s)
                         ELSE Ok(Learn(c, [s EXCEPT !.left = IF s.got THEN @ ELSE e.k, !.prev = IF s.got THEN @ ELSE <<>>]))
    [] e.m = "LIST" -> IF s.st[p] # "chk" \/ s.got THEN Ok(s)
                       ELSE Ok(Learn(c, [s EXCEPT !.left = @ - Len(e.files), !.prev = @ \o e.files]))
    [] e.m = "DONE" -> If(s.st[p] = "fin", [s EXCEPT !.acked[p] = Len(s.hist[p]), !.sdone[p] = TRUE])
    [] e.m = "ERR" -> If(s.st[p] = "fin", Globals(c, [s EXCEPT !.acked[p] = Len(s.hist[p]), !.st[p] = "blk"], e.cps))
    [] e.m = "ABORT" -> If(s.vm > 0, s) \* only of a mismatch
    [] e.m = "HB" -> Ok(s)
    [] OTHER -> {}

\* ------------------------------------------------------------- receiver
Conn(s, p) == SelectSeq(s.ch[p], LAMBDA m : m.n = s.rn[p])

\* everything before the k-th message is taken; deletions on the way count as blocks
RECURSIVE Take(_, _, _, _)
Take(c, s, p, l) ==
  IF l = <<>> \/ (l[1].m = "FILE" /\ l[1].len >= 0) \/ l[1].m = "DONE" THEN [s |-> s, l |-> l]
  ELSE IF l[1].m = "FILE"
       THEN Take(c, [s EXCEPT !.cp[p] = [NoCp EXCEPT !.nb = s.cp[p].nb + 1], !.idx[p] = s.pidx[p],
                              !.verified = @ \cup {[f |-> l[1].f, seq |-> l[1].seq, off |-> 0, len |-> -1]}], p, Tail(l))
       ELSE Take(c, s, p, Tail(l))

\* the checksum of the block received last was good
Settle(c, s, p) ==
  IF s.maybe[p] = None THEN s
  ELSE IF c.gcm THEN [s EXCEPT !.maybe[p] = None, !.pend[p] = Append(@, [v |-> s.maybe[p][1], good |-> 1])]  \* the tag is still to come
                ELSE [s EXCEPT !.maybe[p] = None, !.cp[p].nb = @ + 1, !.verified = @ \cup {s.maybe[p][1]}]

\* the thread's next commands up to a block or the end
Advance(c, s, p) == LET x == Take(c, Settle(c, s, p), p, Conn(s, p))
                    IN [s |-> [x.s EXCEPT !.ch[p] = SelectSeq(@, LAMBDA m : m.n > s.rn[p]), !.chunked[p] = 0], l |-> x.l]
Put(s, p, l) == [s EXCEPT !.ch[p] = l \o @]

RBlk(c, s0, e) ==
  LET p == e.p IN
  IF p < 0 \/ e.n # s0.rn[p] THEN {}
  ELSE LET a == Advance(c, s0, p)  s == a.s IN
  IF a.l = <<>> \/ a.l[1].m # "FILE" THEN {}
  ELSE LET m == a.l[1]
           full == e.len = m.len
           v == [f |-> m.f, seq |-> m.seq, off |-> m.off, len |-> m.len]
           s1 == Put([s EXCEPT !.idx[p] = s.pidx[p], !.rt[p] = "cmd"], p, Tail(a.l))
           c0 == [NoCp EXCEPT !.nb = s.cp[p].nb]
       IN IF ~(/\ s.rt[p] \in {"cmd", "wait"} /\ m.f = e.f /\ e.len <= m.len /\ (e.len = 0 \/ e.off = m.off)
               /\ (e.good = 1 \/ c.corrupt) /\ (s.got \/ ~c.res))
          THEN {}
          ELSE IF full /\ c.chk THEN {[s1 EXCEPT !.maybe[p] = IF e.good = 1 THEN <<v>> ELSE None, !.cp[p] = c0]}
          ELSE IF full /\ c.gcm THEN {[s1 EXCEPT !.pend[p] = Append(@, [v |-> v, good |-> e.good]), !.cp[p] = c0]}
          ELSE IF full THEN {[s1 EXCEPT !.cp[p] = [c0 EXCEPT !.nb = @ + 1],
                                        !.verified = IF e.good = 1 THEN @ \cup {v} ELSE @]}
          ELSE {[s1 EXCEPT !.cp[p] = IF c.chk \/ c.gcm THEN c0
                                     ELSE [c0 EXCEPT !.seq = m.seq, !.off = m.off, !.rcv = e.len]]}

\* a tag over everything before it was read (connection n is the thread's)
Tagged(s, p) ==
  If(\A j \in 1..Len(s.pend[p]) : s.pend[p][j].good = 1,
     [s EXCEPT !.pend[p] = <<>>, !.cp[p].nb = @ + Len(s.pend[p]),
               !.verified = @ \cup {s.pend[p][j].v : j \in 1..Len(s.pend[p])}])
RTag(c, s, e) ==
  IF e.ok # 1 THEN Ok(s)
  ELSE Tagged(s, e.p) \cup Tagged(Settle(c, s, e.p), e.p)  \* a checksum may or may not have been looked at

\* the checkpoint a thread has, given that the last checksum may or may not have been read and trailing
\* deletions may or may not have been taken
CpOf(c, s, p) ==
  LET l == Conn(s, p)
      RECURSIVE D(_, _)
      D(u, x) == {u} \cup
        IF x = <<>> THEN {}
        ELSE IF x[1].m \in {"SIZE", "FOOTER", "SETTINGS"} THEN D(u, Tail(x))
        ELSE IF x[1].m = "FILE" /\ x[1].len < 0
             THEN D([u EXCEPT !.cp[p] = [NoCp EXCEPT !.nb = u.cp[p].nb + 1]], Tail(x))
        ELSE {}
  IN UNION {D(u, l) : u \in {s, Settle(c, s, p)}}

Matches(c, k, m) == /\ m.port >= 0 /\ m.nb = k.nb
                    /\ (c.v >= 16 => m.rcv = k.rcv)
                    /\ (c.v >= 21 => m.seq = k.seq /\ m.off = k.off)

RConn(c, s, e) ==
  LET p == e.p IN
  If(s.rt[p] \in {"first", "acct", "cmd", "wait", "lcp"} /\ e.n > s.rn[p],
     [s EXCEPT !.rt[p] = IF s.rt[p] = "first" THEN "cmd" ELSE "lcp", !.rn[p] = e.n, !.started = TRUE,
               !.ch[p] = SelectSeq(@, LAMBDA m : m.n >= e.n), !.pidx[p] = s.idx[p], !.pend[p] = <<>>, !.chunked[p] = 0])

\* threads that ended with an error have left their checkpoints
Leave(c, s0, l) ==
  LET RECURSIVE L(_, _)
      L(S, k) == IF k > Len(l) THEN S
                 ELSE LET x == l[k]  p == x.port - Port0 IN
                      L(UNION {IF p \in Ports(c) /\ (s.lclosed[p] \/ (s.rt[p] = "first" /\ \E i \in DOMAIN c.taken : c.taken[i] = p)) /\ s.rt[p] # "left"
                               THEN {[u EXCEPT !.rt[p] = "left", !.cps = Append(@, x), !.maybe[p] = None]
                                       : u \in {t \in CpOf(c, s, p) : Matches(c, t.cp[p], x)}}
                               ELSE {} : s \in S}, k + 1)
  IN L({s0}, 1)

\* the thread has everything it was sent, and the sender's word that this is all
Waits(c, s, p) == s.rt[p] = "wait" \/ (s.rt[p] = "cmd" /\ LET a == Advance(c, s, p) IN a.l # <<>> /\ a.l[1].m = "DONE")

IntoWait(c, s, p) ==
  IF s.rt[p] = "wait" THEN {s}
  ELSE LET a == Advance(c, s, p) IN
       IF s.rt[p] = "cmd" /\ a.l # <<>> /\ a.l[1].m = "DONE"
       THEN {Put([a.s EXCEPT !.rt[p] = "wait", !.idx[p] = a.s.pidx[p]], p, Tail(a.l))} ELSE {}

\* p goes on; the threads that have nothing to wait for but p have decided, or not, to finish
Ready(c, t, p) ==
  [j \in Ports(c) |->
     IF j # p THEN t.errw[j] \ {p}
     ELSE {k \in Ports(c) \ {p} : Waits(c, t, k) /\ \E u \in IntoWait(c, t, k) : u.idx[k] = Len(u.cps)}]

RMsg(c, s, e) ==
  LET p == e.p
      first == LET l == Conn(s, p) IN l # <<>> /\ l[1].m = "SETTINGS"
  IN
  IF e.n # s.rn[p] THEN {}
  ELSE CASE e.m = "LCP" ->
         IF s.rt[p] # "lcp" \/ e.cp.port # Port0 + p THEN {}
         ELSE {[u EXCEPT !.rt[p] = "cmd", !.maybe[p] = None] : u \in {t \in CpOf(c, s, p) : Matches(c, t.cp[p], e.cp)}}
    [] e.m = "WAIT" ->
         IF c.res /\ first /\ s.rt[p] = "cmd" THEN Ok([s EXCEPT !.chunked[p] = 1])
         ELSE IntoWait(c, s, p)
    [] e.m = "ACK" -> If(c.res /\ first /\ s.got /\ s.rt[p] = "cmd", [s EXCEPT !.chunked[p] = 0, !.funnel = TRUE])
    [] e.m = "CHUNKS" -> If(c.res /\ first /\ s.rt[p] = "cmd" /\ ~s.funnel, s)
    [] e.m = "LIST" -> If(c.res, s)
    [] e.m = "HB" -> Ok(s)
    [] e.m = "ERR" ->
         UNION {LET known == Len(u.cps) - u.idx[p]
                    same == \A k \in 1..Min(known, Len(e.cps)) : e.cps[k] = u.cps[u.idx[p] + k]
                IN IF ~same \/ known < 0 \/ Len(e.cps) = 0 THEN {}
                   ELSE {[t EXCEPT !.rt[p] = "cmd", !.pidx[p] = u.idx[p] + Len(e.cps), !.errw = Ready(c, t, p)]
                           : t \in Leave(c, u, SubSeq(e.cps, known + 1, Len(e.cps)))}
                : u \in IntoWait(c, s, p)}
    [] e.m = "DONE" ->
         {[u EXCEPT !.rt[p] = "acct", !.rdone[p] = TRUE]
            : u \in {t \in IntoWait(c, s, p) :
                /\ t.idx[p] = Len(t.cps)
                /\ \A j \in Ports(c) \ {p} : \/ t.rdone[j] /\ t.rt[j] # "left"
                                             \/ Waits(c, t, j)
                                             \/ p \in t.errw[j]
                                             \/ t.rt[j] = "left"}}
    [] e.m = "ABORT" -> If(first /\ Conn(s, p)[1].v > c.rv /\ e.v = c.v, [s EXCEPT !.vm = IF @ = 0 THEN 1 ELSE @]) \* only of a mismatch
    [] OTHER -> {}

\* ------------------------------------------------------------- the log
RLog(c, s, e) ==
  CASE e.m = "CREATE" -> Ok([s EXCEPT !.created = @ \cup {e.seq}])
    [] e.m = "BLOCK" -> \* only what is confirmed, under the number under which it came
         LET V == s.verified \cup UNION {IF s.maybe[p] = None \/ c.gcm THEN {} ELSE {s.maybe[p][1]} : p \in Ports(c)}
             v == {x \in V : x.seq = e.seq /\ x.off = e.off /\ x.len = e.len}
         IN If(v # {} \/ s.compact, [s EXCEPT !.logged = @ \cup v])
    [] OTHER -> Ok(s)

\* ------------------------------------------------------------- connections
\* connecting again without having got anywhere is bounded, and so is the time
\* an attempt takes (a second, and what a look at the clock may be late)
SConn(c, s, e) ==
  LET p == e.p IN
  If(/\ s.st[p] = "off" /\ e.n > s.sn[p] /\ (s.npr[p] < c.maxnp \/ s.sn[p] < 0),
     [s EXCEPT !.st[p] = IF s.serr[p] THEN "cp" ELSE "set", !.sn[p] = e.n, !.cf[p] = 0, !.serr[p] = FALSE])

SCFail(c, s, e) == If(s.st[e.p] = "off" /\ s.cf[e.p] < c.maxret /\ e.d <= 1500, [s EXCEPT !.cf[e.p] = @ + 1])

SClose(c, s, e) ==
  LET p == e.p IN
  IF e.n # s.sn[p] THEN {}
  ELSE If(~c.clean \/ s.fault \/ s.vm > 0 \/ s.sdone[p],
          [Sent(s, p) EXCEPT !.st[p] = "off", !.serr[p] = TRUE, !.npr[p] = IF s.st[p] = "cp" THEN @ + 1 ELSE @])

\* the receiver gives its connection up: what it then has is settled
RClose(c, s, e) ==
  LET p == e.p IN
  IF e.n # s.rn[p] THEN {}
  ELSE IF ~(~c.clean \/ s.fault \/ s.vm > 0 \/ s.rdone[p]) THEN {}
  ELSE IF s.rt[p] = "left" THEN {s}
  ELSE {[t EXCEPT !.rt[p] = "acct", !.maybe[p] = None] : t \in CpOf(c, s, p)}

\* ------------------------------------------------------------- the ends
Good(c, e, f) == \E k \in 1..Len(e.files) : e.files[k][1] = f /\ e.files[k][2] = SizeOf(c, f) /\ e.files[k][3] = 1

RECURSIVE Cover(_, _, _)
Cover(B, at, size) ==
  at >= size \/ LET N == {b \in B : b.off <= at /\ b.off + b.len > at} IN
                N # {} /\ LET n == CHOOSE b \in N : TRUE IN Cover(B, n.off + n.len, size)

\* bytes the receiver had before
Had(c, s) ==
  LET RECURSIVE H(_)
      H(F) == IF F = {} THEN 0
              ELSE LET f == CHOOSE f \in F : TRUE
                   IN SizeOf(c, f) - SumLen({x \in s.all : x.f = f /\ x.len >= 0}) + H(F \ {f})
  IN H(Names(c) \ c.bad)

\* every byte of every file was sent and confirmed, or the receiver had it
Whole(c, s) ==
  \A f \in Names(c) :
    LET P == PrevOf(c, s.prev, f)
        pr == s.prev[CHOOSE k \in P : TRUE]
        B == {x \in s.verified : x.f = f /\ x.len >= 0}
        H == IF P = {} \/ pr.fs > SizeOf(c, f) THEN {}
             ELSE {[off |-> pr.chunks[k][1], len |-> pr.chunks[k][2] - pr.chunks[k][1]] : k \in 1..Len(pr.chunks)}
    IN Cover({[off |-> x.off, len |-> x.len] : x \in B} \cup H, 0, SizeOf(c, f))

\* the report of a sender that failed nowhere says what was transferred
FileBytes(s, f) == SumLen({x \in s.all : x.f = f})
RECURSIVE Total(_, _, _)
Total(l, f, k) == IF k = 0 THEN 0 ELSE (IF l[k][1] = f THEN l[k][2] ELSE 0) + Total(l, f, k - 1)
Reported(c, s, e) ==
  /\ e.bad = <<>> /\ e.dirs = <<>> /\ e.local = "OK" /\ e.remote = "OK"
  /\ e.bytes = SumLen(s.all) /\ e.blocks = Cardinality(s.all)
  /\ e.disc = Cardinality({x.f : x \in s.all})
  /\ e.total = SumLen(s.all)
  /\ e.prev = Had(c, s)
  /\ c.full => /\ \A k \in 1..Len(e.ok) : e.ok[k][4] = "OK" /\ \E x \in s.all : x.f = e.ok[k][1]
               /\ \A f \in Names(c) : FileBytes(s, f) = Total(e.ok, f, Len(e.ok))
               /\ Len(e.ok) = Cardinality(s.all)

\* a thread ends for one of these reasons only
Ended(c, s, e) ==
  \A k \in 1..Len(e.th) :
    LET p == k - 1  x == e.th[k][1] IN
    CASE x = "OK" -> s.sdone[p]
      [] x = "NO_PROGRESS" -> s.npr[p] >= c.maxnp
      [] x = "CONN_ERROR" -> s.cf[p] >= c.maxret \/ s.glob[p]
      [] x = "ABORT" -> s.vm # 0 \/ s.glob[p]    \* told of the mismatch, and not of the version; or replaced
      [] OTHER -> FALSE

SEnd(c, s, e) ==
  LET ok == e.code = "OK" IN
  If(/\ c.clean => ok
     /\ c.ends => Ended(c, s, e)
     /\ ok => /\ c.bad = {} /\ s.send = ""
              /\ s.got /\ s.q = {} /\ \E p \in Ports(c) : s.sdone[p]
              /\ Reported(c, s, e),
     [s EXCEPT !.send = e.code])

REnd(c, s, e) ==
  LET ok == e.code = "OK" IN
  If(/\ c.clean => ok
     /\ ok => /\ s.rend = "" /\ e.sent = Cardinality(s.all) /\ e.blocks = e.sent
              /\ c.v >= 16 => e.bytes = SumLen(s.all),
     [s EXCEPT !.rend = e.code])

\* a successful end on either side means the destination has everything; before version 21 a checkpoint
\* did not name its block, and only both ends together know
Dst(c, s, e) == If((IF c.v < 21 THEN s.send = "OK" /\ s.rend = "OK" ELSE s.send = "OK" \/ s.rend = "OK")
                   => \A f \in Names(c) : Good(c, e, f), s)

Strict(c, s, e) ==
  CASE e.e = "s_conn" -> SConn(c, s, e)
    [] e.e = "s_cfail" -> SCFail(c, s, e)
    [] e.e = "s_close" -> SClose(c, s, e)
    [] e.e = "s_msg" -> SMsg(c, s, e)
    [] e.e = "s_got" -> SGot(c, s, e)
    [] e.e = "r_acc" -> RConn(c, s, e)
    [] e.e = "r_close" -> RClose(c, s, e)
    [] e.e = "r_msg" -> RMsg(c, s, e)
    [] e.e = "r_blk" -> RBlk(c, s, e)
    [] e.e = "r_tag" -> RTag(c, s, e)
    [] e.e = "log" -> RLog(c, s, e)
    [] e.e = "d_op" -> Ok([s EXCEPT !.compact = TRUE])   \* the log is written anew
    [] e.e = "r_lclose" -> Ok([s EXCEPT !.lclosed[e.p] = TRUE])
    [] e.e \in {"n_fault", "n_broke"} -> Ok([s EXCEPT !.fault = TRUE])
    [] e.e = "s_end" -> SEnd(c, s, e)
    [] e.e = "r_end" -> REnd(c, s, e)
    [] e.e = "dst" -> Dst(c, s, e)
    [] e.e = "quiet" -> If(e.conns = 0 /\ e.files = 0, s)
    [] e.e \in {"leak", "plain", "ivreuse", "ivlong"} -> {}
    [] OTHER -> Ok(s)

\* an abort, a failing disk or an unreadable source: only what must hold whatever happens
MISMATCH == 11
Upset(e) == \/ e.e \in {"abort", "d_fail"}
            \/ e.e \in {"r_msg", "s_got"} /\ e.m = "ABORT" /\ e.code # MISMATCH

Lax(c, s, e) ==
  CASE e.e = "s_end" -> LET ok == e.code = "OK" IN
         If(ok => c.bad = {} /\ s.send = "" /\ e.bad = <<>> /\ e.dirs = <<>>, [s EXCEPT !.send = e.code])
    [] e.e = "r_end" -> LET ok == e.code = "OK" IN
         If(ok => s.rend = "" /\ e.blocks = e.sent, [s EXCEPT !.rend = e.code])
    [] e.e = "dst" -> Dst(c, s, e)
    [] e.e = "quiet" -> If(e.conns = 0 /\ e.files = 0, s)
    \* a receiver thread spoken to in plain takes its peer for one that cannot encrypt, from then on
    [] e.e = "s_conn" /\ Has(e, "x") -> Ok([s EXCEPT !.down[e.p] = TRUE])
    [] e.e = "plain" /\ e.side = 1 -> If(s.down[e.p] /\ ~c.keep, s)
    [] e.e \in {"leak", "plain", "ivreuse", "ivlong"} -> {}
    [] e.e = "r_blk" -> If(e.good = 1 \/ c.corrupt, s)
    [] OTHER -> Ok(s)

\* no transfer runs on for long after its last connection was made or lost
Time(c, s, e) ==
  IF e.e \in {"s_conn", "s_cfail", "s_close", "r_acc", "r_close"} THEN [s EXCEPT !.lt = e.t] ELSE s
InTime(c, s, e) == (e.e = "s_end" => e.t - s.lt <= 60000) /\ (e.e = "r_end" => e.t - s.lt <= 90000)

Step(c, s, e) == IF c.lax \/ s.abort \/ Upset(e) THEN Lax(c, [s EXCEPT !.abort = TRUE], e) ELSE Strict(c, s, e)
Apply(c, s, e) == IF InTime(c, s, e) THEN {Time(c, x, e) : x \in Step(c, s, e)} ELSE {}
=============================================================================
