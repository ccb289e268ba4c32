------------------------------- MODULE Log -------------------------------
(* The receiver's transfer log: what a log means (Parse), and how a directory
   and its log may develop over the sessions of a transfer (Apply).

   A log is a sequence of entries, records with field m:
     HEADER(v, rid, ip, cfg)  CREATE(name, seq, fs)  BLOCK(seq, off, len)
     RESIZE(seq, fs)  INVAL(seq)  DIRINVAL  JUNK (an entry that cannot be read)
   A parse is relative to a session (rid, cfg, alloc: files are allocated at
   once, tree: the directory's sizes are trusted, not the log) and to the sizes
   of the files in the directory (a function from names). *)
EXTENDS Integers, Sequences, FiniteSets, TLC

VERSION == 2
Empty == [x \in {} |-> 0]
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Drop(f, K) == [x \in DOMAIN f \ K |-> f[x]]

\* ------------------------------------------------------------- ranges
\* S: set of <<lo, hi>>
RECURSIVE Covered(_, _, _)
Covered(S, lo, hi) ==
  lo >= hi \/ LET N == {r \in S : r[1] <= lo /\ r[2] > lo} IN
              N # {} /\ LET n == CHOOSE n \in N : \A m \in N : m[2] <= n[2] IN Covered(S, n[2], hi)
Cut(S, lo, hi) == UNION {{x \in {<<r[1], IF r[2] < lo THEN r[2] ELSE lo>>, <<IF r[1] > hi THEN r[1] ELSE hi, r[2]>>} : x[1] < x[2]} : r \in S}
AddR(S, lo, hi) == IF lo >= hi THEN S
                   ELSE LET T == {r \in S : r[2] >= lo /\ r[1] <= hi}
                            l == {r[1] : r \in T} \cup {lo}
                            h == {r[2] : r \in T} \cup {hi}
                        IN (S \ T) \cup {<<CHOOSE x \in l : \A y \in l : x <= y, CHOOSE x \in h : \A y \in h : x >= y>>}
\* sorted sequence of maximal ranges, empty ones included only if nothing touches them
RECURSIVE Sorted(_)
Sorted(S) == IF S = {} THEN <<>>
             ELSE LET a == CHOOSE a \in S : \A b \in S : a[1] < b[1] \/ (a[1] = b[1] /\ a[2] <= b[2]) IN <<a>> \o Sorted(S \ {a})
RECURSIVE Join(_, _)
Join(acc, l) == IF l = <<>> THEN acc
                ELSE IF acc # <<>> /\ acc[Len(acc)][2] >= l[1][1]
                     THEN Join([acc EXCEPT ![Len(acc)] = <<@[1], IF @[2] > l[1][2] THEN @[2] ELSE l[1][2]>>], Tail(l))
                     ELSE Join(Append(acc, l[1]), Tail(l))
Merged(S) == Join(<<>>, Sorted(S))

\* ------------------------------------------------------------- meaning of a log
\* st: OK, INVALID (contradicts itself), INCONSISTENT (of another session)
P0 == [st |-> "OK", hdr |-> FALSE, ip |-> "", files |-> Empty, inv |-> {}]

\* s: session [rid, cfg, alloc, tree]; size: function from the names that exist
Entry(s, size, p, e) ==
  IF p.st = "INVALID" THEN p
  ELSE IF p.st = "INCONSISTENT" /\ e.m # "HEADER" /\ e.m # "JUNKLEN" THEN p
  ELSE LET bad == [p EXCEPT !.st = "INVALID"]
           \* the file is not what the log says any more
           gone == [p EXCEPT !.files = Drop(@, {e.seq}), !.inv = @ \cup {e.seq}]
           other == [p EXCEPT !.st = "INCONSISTENT", !.files = Empty, !.inv = {}]
       IN CASE e.m = "HEADER" ->
                 IF e.v # VERSION \/ e.ip = "" THEN [bad EXCEPT !.ip = e.ip]
                 ELSE IF e.rid # s.rid \/ e.cfg # s.cfg THEN [other EXCEPT !.ip = e.ip]
                 ELSE [p EXCEPT !.st = "OK", !.hdr = TRUE, !.ip = e.ip]
            [] e.m = "DIRINVAL" -> [other EXCEPT !.hdr = FALSE]
            [] e.m \in {"CREATE", "BLOCK", "RESIZE", "INVAL"} /\ (~p.hdr \/ s.tree) -> bad
            [] e.m = "CREATE" ->
                 IF e.seq \in DOMAIN p.files \cup p.inv THEN bad
                 ELSE IF e.name \in DOMAIN size /\ (s.alloc => size[e.name] >= e.fs)
                      THEN [p EXCEPT !.files = Put(@, e.seq, [name |-> e.name, fs |-> e.fs, disk |-> size[e.name], ch |-> {}])]
                      ELSE [p EXCEPT !.inv = @ \cup {e.seq}]
            [] e.m = "BLOCK" ->
                 IF e.seq \in p.inv THEN p
                 ELSE IF e.seq \notin DOMAIN p.files THEN bad
                 ELSE IF e.off + e.len > p.files[e.seq].disk THEN gone
                 ELSE [p EXCEPT !.files[e.seq].ch = @ \cup {<<e.off, e.off + e.len>>}]
            [] e.m = "RESIZE" ->
                 IF e.seq \in p.inv THEN p
                 ELSE IF e.seq \notin DOMAIN p.files THEN bad
                 ELSE IF s.alloc /\ e.fs < p.files[e.seq].fs THEN bad
                 ELSE IF s.alloc /\ e.fs > p.files[e.seq].disk THEN gone
                 ELSE [p EXCEPT !.files[e.seq].fs = e.fs]
            [] e.m = "INVAL" ->
                 IF e.seq \notin DOMAIN p.files \cup p.inv THEN bad
                 ELSE [p EXCEPT !.files = Drop(@, {e.seq}), !.inv = @ \ {e.seq}]
            [] OTHER -> bad

RECURSIVE Fold(_, _, _, _)
Fold(s, size, p, l) == IF l = <<>> THEN p ELSE Fold(s, size, Entry(s, size, p, l[1]), Tail(l))
Parse(s, size, l) == Fold(s, size, P0, l)

RECURSIVE SetSeq(_)
SetSeq(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : \A y \in S : x <= y IN <<x>> \o SetSeq(S \ {x})

\* what is left of the log after it was read: files that are not there any more are invalidated in it, a log
\* of another session is marked as such
Repaired(s, size, l) ==
  LET p == Parse(s, size, l)
      d == SetSeq(p.inv)
  IN CASE p.st = "OK" -> l \o [k \in 1..Len(d) |-> [m |-> "INVAL", seq |-> d[k]]]
       [] p.st = "INCONSISTENT" -> Append(l, [m |-> "DIRINVAL"])
       [] OTHER -> l

\* the progress of an accepted log
Progress(p) == IF p.st # "OK" THEN {}
               ELSE {[seq |-> q, name |-> p.files[q].name, fs |-> p.files[q].disk, ch |-> Merged(p.files[q].ch)] : q \in DOMAIN p.files}

Max(x, y) == IF x > y THEN x ELSE y
Compactable(p) == p.st = "OK" /\ \A q \in DOMAIN p.files : LET m == Merged(p.files[q].ch) IN Len(m) = 1 /\ m[1][2] - m[1][1] = p.files[q].disk

\* ------------------------------------------------------------- sessions
(* Events of a directory over several sessions:
     start(files, rid, cfg, alloc, tree)   a session begins; the sizes found in the directory
     w(f, off, len, good) fsy(f)           written, synced
     d_op(op, f, arg)                      create, resize, unlink, rename, logtrunc of a file
     log(m, ...)                           an entry reached the log
     r_msg CHUNKS(k) / LIST(files)         what the receiver says it has
   State: disk (name -> size, good, synced ranges), l (the log), ses (the session), said (what it must say) *)
LogName == ".wdt.log"
S0(c) == [disk |-> Empty, l |-> <<>>, ses |-> <<>>, said |-> {}, st |-> "OK", err |-> ""]

Sizes(s) == [f \in DOMAIN s.disk |-> s.disk[f].size]
Bad(s, why) == [s EXCEPT !.err = why]

\* every range the log claims is on the disk, right and synced
Honest(s) ==
  LET p == Parse(s.ses, Sizes(s), s.l) IN
  p.st # "OK" \/ \A q \in DOMAIN p.files : \A r \in p.files[q].ch :
     LET d == s.disk[p.files[q].name] IN Covered(d.good, r[1], r[2]) /\ Covered(d.sync, r[1], r[2])

\* which of the reasons the log gives for distrust is its own making
SoundEntry(s, e) ==
  LET p == Parse(s.ses, Sizes(s), s.l) IN
  \* a session goes on writing only to a log that can be read
  /\ e.m \in {"CREATE", "BLOCK", "RESIZE", "INVAL"} => p.st = "OK" /\ p.hdr
  /\ e.m = "BLOCK" => e.seq \in DOMAIN p.files \cup p.inv
  /\ e.m = "CREATE" => /\ e.seq \notin DOMAIN p.files \cup p.inv
                       \* the replaced file's progress is not claimed any more
                       /\ \A q \in DOMAIN p.files : p.files[q].name # e.name \/ p.files[q].ch = {}

Known(s, f) == IF f \in DOMAIN s.disk THEN s.disk[f] ELSE [size |-> 0, good |-> {}, sync |-> {}]

Resize(s, f, n) == LET d == Known(s, f) IN
  [s EXCEPT !.disk = Put(@, f, [size |-> n, good |-> Cut(d.good, n, Max(n, d.size)), sync |-> Cut(d.sync, n, Max(n, d.size))])]

Start(c, s, e) ==
  LET here == [f \in {e.files[k][1] : k \in 1..Len(e.files)} \ {LogName} |->
                 e.files[CHOOSE k \in 1..Len(e.files) : e.files[k][1] = f][2]]
      logged == \E k \in 1..Len(e.files) : e.files[k][1] = LogName
      ses == [rid |-> e.rid, cfg |-> e.cfg, alloc |-> e.alloc, tree |-> e.tree]
      d == [f \in DOMAIN here |-> LET o == Known(s, f) IN
              [size |-> here[f], good |-> Cut(o.good, here[f], Max(here[f], o.size)), sync |-> Cut(o.sync, here[f], Max(here[f], o.size))]]
      l == IF logged THEN s.l ELSE <<>>
      p == Parse(ses, here, l)
  IN [s EXCEPT !.disk = d, !.l = l, !.ses = ses, !.st = p.st,
               !.said = IF ~e.res \/ p.st # "OK" THEN {}
                        ELSE IF e.tree THEN {[seq |-> -1, name |-> f, fs |-> here[f], ch |-> <<<<0, here[f]>>>>] : f \in DOMAIN here \ {".wdt.log.bug"}}
                        ELSE Progress(p)]

AsSet(l) == {l[k] : k \in 1..Len(l)}
Says(s, e) == \A k \in 1..Len(e.files) :
                LET x == e.files[k] IN
                \E y \in s.said : y.name = x.name /\ (y.seq = -1 \/ y.seq = x.seq) /\ y.fs = x.fs /\ y.ch = x.chunks

Step(c, s, e) ==
  CASE e.e = "start" -> Start(c, s, e)
    [] e.e = "w" -> LET d == Known(s, e.f) IN
         [s EXCEPT !.disk = Put(@, e.f, [size |-> Max(d.size, e.off + e.len),
                                         good |-> IF e.good = 1 THEN AddR(d.good, e.off, e.off + e.len) ELSE Cut(d.good, e.off, e.off + e.len),
                                         \* overwriting what was synced puts the same there, or what is not good
                                         sync |-> IF e.good = 1 THEN d.sync ELSE Cut(d.sync, e.off, e.off + e.len)])]
    [] e.e = "fsy" -> [s EXCEPT !.disk = Put(@, e.f, [Known(s, e.f) EXCEPT !.sync = Known(s, e.f).good])]
    [] e.e = "d_op" /\ e.op = "create" -> [s EXCEPT !.disk = Put(@, e.f, [size |-> 0, good |-> {}, sync |-> {}])]
    [] e.e = "d_op" /\ e.op = "resize" -> Resize(s, e.f, e.arg)
    [] e.e = "d_op" /\ e.op = "unlink" -> IF e.f = LogName THEN [s EXCEPT !.l = <<>>] ELSE [s EXCEPT !.disk = Drop(@, {e.f})]
    [] e.e = "d_op" /\ e.op = "rename" -> [s EXCEPT !.l = <<>>]
    [] e.e = "d_op" /\ e.op = "logtrunc" /\ e.arg = 0 -> [s EXCEPT !.l = <<>>]
    [] e.e = "log" -> [s EXCEPT !.l = Append(@, e)]
    [] OTHER -> s

Touches(e) == e.e \in {"d_op", "log", "crash"} \/ (e.e = "w" /\ e.good = 0)
Apply(c, s, e) ==
  LET t == Step(c, s, e) IN
  IF /\ e.e = "log" => SoundEntry(s, e)
     /\ Touches(e) => Honest(t)
     /\ (e.e = "r_msg" /\ e.m = "CHUNKS") => e.k = Cardinality(s.said)
     /\ (e.e = "r_msg" /\ e.m = "LIST") => Says(s, e)
  THEN IF e.e = "d_fail" /\ e.f = LogName THEN {t, [t EXCEPT !.said = {}]}   \* the log could not be opened, or repaired
       ELSE {t}
  ELSE {}
=============================================================================
