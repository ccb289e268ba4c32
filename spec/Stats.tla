--------------------------------- MODULE Stats ---------------------------------
(* Counters and histograms: what they report is a function of the values        *)
(* recorded, whatever way they got together.  A statistic is the bag (sequence) *)
(* of its values; merging concatenates, reset empties.                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC

MinOf(s) == CHOOSE x \in s : \A y \in s : x <= y
MaxOf(s) == CHOOSE x \in s : \A y \in s : y <= x
Rng(s) == {s[i] : i \in 1..Len(s)}
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE s[1] + Sum(Tail(s))
RECURSIVE SumSq(_)
SumSq(s) == IF s = <<>> THEN 0 ELSE s[1] * s[1] + SumSq(Tail(s))
Abs(x) == IF x < 0 THEN -x ELSE x
Trunc(a, b) == IF a >= 0 THEN a \div b ELSE -((-a) \div b)

Obs(b) == LET nz == Rng(b) \ {0} IN
          [count |-> Len(b), sum |-> Sum(b),
           rmin |-> IF b = <<>> THEN 0 ELSE MinOf(Rng(b)),
           min |-> IF nz = {} THEN 0 ELSE MinOf(nz),
           max |-> IF b = <<>> THEN 0 ELSE MaxOf(Rng(b))]

(* operations on numbered statistics *)
Step(st, op) ==
  CASE op[1] = "r" -> [st EXCEPT ![op[2]] = Append(@, op[3])]
    [] op[1] = "m" -> [st EXCEPT ![op[2]] = @ \o st[op[3]]]
    [] op[1] = "z" -> [st EXCEPT ![op[2]] = <<>>]
RECURSIVE Run(_, _)
Run(st, ops) == IF ops = <<>> THEN st ELSE Run(Step(st, ops[1]), Tail(ops))
Fresh(n) == [i \in 1..n |-> <<>>]
\* prefix states, one after each operation
RECURSIVE Prefixes(_, _)
Prefixes(st, ops) == IF ops = <<>> THEN <<>> ELSE LET s == Step(st, ops[1]) IN <<s>> \o Prefixes(s, Tail(ops))

ObsOk(o, b) == LET w == Obs(b) IN \A k \in DOMAIN w : o[k] = w[k]
\* o.var is count times the square of the standard deviation, rounded
VarOk(o, b) == b = <<>> \/ LET v == SumSq(b) - Trunc(Sum(b) * Sum(b), Len(b)) IN Abs(o.var - v) <= 1

----------------------------------------------------------------------------
Buckets == <<1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 14, 16, 18, 20, 25, 30, 35, 40, 45, 50, 60, 70, 80, 90, 100, 120, 140, 160, 180, 200,
             250, 300, 350, 400, 450, 500, 600, 700, 800, 900, 1000, 2000, 3000, 4000, 5000, 7500, 10000, 20000, 30000, 40000, 50000,
             75000, 100000>>
NB == Len(Buckets)
BucketOf(v, div, off) == LET s == IF v < off THEN 0 ELSE (v - off) \div div IN Cardinality({i \in 1..NB : Buckets[i] <= s}) \* 0..NB
CountIn(b, k, div, off) == Cardinality({i \in 1..Len(b) : BucketOf(b[i], div, off) = k})
(* rows printed: [lo, hi, n, perc] from the first bucket to the last used one;  *)
(* perc in tenths, of all values up to the end of the row                       *)
RowsOk(rows, b, div, off) ==
  LET used == {BucketOf(b[i], div, off) : i \in 1..Len(b)} IN
  IF b = <<>> THEN rows = <<>>
  ELSE /\ Len(rows) = MaxOf(used) + 1
       /\ \A k \in 1..Len(rows) :
            /\ rows[k].n = CountIn(b, k - 1, div, off)
            /\ k > 1 => rows[k].lo = div * Buckets[k - 1] + off
            /\ k <= NB => rows[k].hi = div * Buckets[k] + off
            /\ LET c == Cardinality({i \in 1..Len(b) : BucketOf(b[i], div, off) < k}) IN
               Abs(rows[k].perc * Len(b) - 1000 * c) <= Len(b)
(* percentiles: ps is a sequence of [p (percent), v (rounded)] with p rising *)
PercOk(ps, b, div, off) ==
  b = <<>> \/ (\E i \in 1..Len(b) : b[i] < 0 \/ b[i] < off) \/   \* values below the histogram's range have no position in it
  LET n == Len(b)
      o == Obs(b)
      cum(k) == Cardinality({i \in 1..n : BucketOf(b[i], div, off) <= k})
      one(p, v) ==
        IF p >= 100 THEN v = o.max
        ELSE IF p <= 0 THEN v = o.rmin
        ELSE LET ks == {k \in 0..(NB - 1) : 100 * cum(k) >= p * n}
                 k == IF ks = {} THEN NB ELSE MinOf(ks)
                 lo == IF k = 0 THEN o.rmin ELSE div * Buckets[k] + off
                 hi == IF k = NB THEN o.max ELSE div * Buckets[k + 1] + off IN
             /\ v >= o.rmin - 1 /\ v <= o.max + 1
             /\ v >= (IF lo > o.max THEN o.rmin ELSE lo) - 1
             /\ v <= (IF hi < o.rmin THEN o.max ELSE hi) + 1
  IN (\A i \in 1..Len(ps) : one(ps[i].p, ps[i].v)) /\ \A i \in 1..(Len(ps) - 1) : ps[i].v <= ps[i + 1].v + 1

----------------------------------------------------------------------------
(* Thread-local aggregates: records go to the thread's own; a read returns what *)
(* was recorded since the last one, by threads alive or gone, and forgets it.   *)
RECURSIVE Reads(_, _)
Reads(b, ops) == IF ops = <<>> THEN <<>>
                 ELSE LET op == ops[1] IN
                      CASE op[1] = "r" -> Reads(Append(b, op[3]), Tail(ops))
                        [] op[1] = "g" -> <<b>> \o Reads(<<>>, Tail(ops))
                        [] OTHER -> Reads(b, Tail(ops))

----------------------------------------------------------------------------
(* Statistics of a transfer: sums, and the most telling error.                  *)
MoreTelling(a, b) == IF a >= b THEN a ELSE b
Adds == {"hb", "db", "ehb", "edb", "nf", "nb", "fa"}
Merge2(a, b) == [k \in DOMAIN a |-> IF k \in Adds THEN a[k] + b[k]
                                    ELSE IF k \in {"nbs", "tsb"} THEN IF a[k] = -1 THEN b[k] ELSE a[k]
                                    ELSE a[k]]
Differ(a, b, k) == a[k] /= -1 /\ b[k] /= -1 /\ a[k] /= b[k]
\* r.a, r.b before, r.c = a after a += b
AddOk(a, b, c) ==
  /\ \A k \in Adds \cup {"nbs", "tsb"} : c[k] = Merge2(a, b)[k]
  /\ c.remote = MoreTelling(a.remote, b.remote)
  /\ IF Differ(a, b, "nbs") \/ Differ(a, b, "tsb") THEN c.local /= 0 /\ c.local >= b.local
     ELSE c.local = MoreTelling(a.local, b.local)
  /\ c.err = MoreTelling(c.local, c.remote)
RECURSIVE SumOf(_, _)
SumOf(ts, k) == IF ts = <<>> THEN 0 ELSE ts[1][k] + SumOf(Tail(ts), k)
RECURSIVE WorstOf(_)
WorstOf(ts) == IF ts = <<>> THEN 0 ELSE MoreTelling(MoreTelling(ts[1].local, ts[1].remote), WorstOf(Tail(ts)))
(* the sender's report, from its threads, failed files and directories *)
SenderOk(r) ==
  LET ts == r.threads
      good == /\ r.faildirs = 0 /\ Len(r.failed) = 0
              /\ SumOf(ts, "edb") = r.total
              /\ (WorstOf(ts) = 0 \/ \E i \in 1..Len(ts) : ts[i].local = 0 /\ ts[i].remote = 0) IN
  /\ (r.err = 0) = good
  /\ r.files = r.discovered - Cardinality({r.failed[i].id : i \in 1..Len(r.failed)})
  /\ \A k \in Adds \ {"nf"} : r.sum[k] = SumOf(ts, k)
(* the receiver's report, from its summary; 28 is an encryption error *)
ReceiverOk(r) ==
  LET s == r.in
      complete == s.nbs /= -1 /\ s.nbs = s.nb /\ (s.tsb = -1 \/ s.tsb = s.edb) IN
  /\ (r.err = 0) = (complete /\ s.remote = 0 /\ s.local \in 0..99 /\ s.local /= 28)
  /\ complete => r.sum.local = (IF s.local = 28 THEN 28 ELSE 0)
  /\ ~complete => r.sum.local = MoreTelling(s.local, 1)

----------------------------------------------------------------------------
(* Timings of system calls: bag of microseconds; the report is in milliseconds  *)
(* with two decimals.                                                           *)
RECURSIVE Kth(_, _)   \* k-th smallest of a bag
Kth(b, k) == LET m == MinOf(Rng(b))
                 n == Cardinality({i \in 1..Len(b) : b[i] = m}) IN
             IF k <= n THEN m ELSE Kth(SelectSeq(b, LAMBDA x : x /= m), k - n)
Near(x, us) == Abs(x - us \div 10) <= 1   \* hundredths of a millisecond
PerfOk(q, b) ==
  IF b = <<>> THEN q.count = 0
  ELSE LET ms == [i \in 1..Len(b) |-> b[i] \div 1000]
           n == Len(b)
           perc(pc) == LET k == (n * pc) \div 100 IN IF k = 0 THEN -1 ELSE Kth(ms, k) IN
       /\ q.count = n /\ Near(q.sum, Sum(b)) /\ Near(q.min, MinOf(Rng(b))) /\ Near(q.max, MaxOf(Rng(b)))
       /\ Abs(q.avg * n - Sum(b) \div 10) <= n
       /\ q.p50 = perc(50) /\ (n % 20 = 0 \/ n < 20 \/ q.p95 = perc(95)) /\ (n < 100 \/ q.p99 \in {perc(99), perc(98)})
       /\ {<<q.buckets[i].lo, q.buckets[i].n>> : i \in 1..Len(q.buckets)} =
          {<<IF k = 0 THEN 0 ELSE Buckets[k], CountIn(ms, k, 1, 0)>> : k \in {BucketOf(ms[i], 1, 0) : i \in 1..n}}

Ok(r) ==
  CASE r.k = "ctr" -> LET ps == Prefixes(Fresh(r.n), r.ops) IN
         \A i \in 1..Len(ps) : LET x == ps[i][r.ops[i][2]] IN
            ObsOk(r.obs[i], x) /\ (r.unit = 1 => VarOk(r.obs[i], x))
    [] r.k = "hist" -> LET f == Run(Fresh(r.n), r.ops) IN
         \A i \in 1..r.n : ObsOk(r.obs[i], f[i]) /\ RowsOk(r.obs[i].rows, f[i], r.div, r.off) /\ PercOk(r.obs[i].perc, f[i], r.div, r.off)
    [] r.k = "tls" -> LET w == Reads(<<>>, r.ops) IN
         Len(w) = Len(r.obs) /\ \A i \in 1..Len(w) : ObsOk(r.obs[i], w[i])
    [] r.k = "add" -> AddOk(r.a, r.b, r.c)
    [] r.k = "srep" -> SenderOk(r)
    [] r.k = "rrep" -> ReceiverOk(r)
    [] r.k = "perf" -> LET f == Run(Fresh(r.n), r.ops) IN \A i \in 1..r.n : \A t \in 1..Len(r.obs[i]) : PerfOk(r.obs[i][t], IF t = r.type + 1 THEN f[i] ELSE <<>>)
    [] OTHER -> FALSE
================================================================================
