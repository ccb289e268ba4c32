------------------------------ MODULE Bigrams ------------------------------
(* The statistics and test-data tools of bench/.

   Input of the statistics tool: a sequence of runs <<byte, times>>.  Its
   output: a list of <<first, second, count>>.  A generated file is judged by
   the pairs of adjacent bytes of each of its segments (one per generating
   thread). *)
EXTENDS Integers, Sequences, FiniteSets, TLC

AsSet(l) == {l[k] : k \in 1..Len(l)}
RECURSIVE Sum(_)
Sum(l) == IF l = <<>> THEN 0 ELSE Head(l) + Sum(Tail(l))
SumOver(S, F(_)) == LET RECURSIVE G(_)
                        G(T) == IF T = {} THEN 0 ELSE LET x == CHOOSE x \in T : TRUE IN F(x) + G(T \ {x})
                    IN G(S)

\* ------------------------------------------------------------ counting
Bytes(runs) == {runs[k][1] : k \in 1..Len(runs)}
\* occurrences of <<a, b>> as neighbours
Occ(runs, wrap, a, b) ==
  LET inside == IF a # b THEN 0 ELSE Sum([k \in 1..Len(runs) |-> IF runs[k][1] = a THEN runs[k][2] - 1 ELSE 0])
      joints == Cardinality({k \in 1..Len(runs) - 1 : runs[k][1] = a /\ runs[k + 1][1] = b})
      around == IF wrap /\ runs # <<>> /\ runs[Len(runs)][1] = a /\ runs[1][1] = b THEN 1 ELSE 0
  IN inside + joints + around
Stats(runs, wrap) == {<<a, b, Occ(runs, wrap, a, b)>> : a, b \in Bytes(runs)} \ {<<a, b, 0>> : a, b \in Bytes(runs)}

OkStats(r) == /\ AsSet(r.out) = Stats(r.runs, r.wrap)
              /\ Cardinality(AsSet(r.out)) = Len(r.out)
              /\ \A k \in 1..Len(r.out) - 1 : r.out[k][3] >= r.out[k + 1][3]

\* the same, straight from the definition: every position of the bytes themselves
RECURSIVE Expand(_)
Expand(runs) == IF runs = <<>> THEN <<>> ELSE [k \in 1..runs[1][2] |-> runs[1][1]] \o Expand(Tail(runs))
Direct(runs, wrap) == LET s == Expand(runs)
                          n == Len(s)
                          P == {<<s[k], s[k + 1]>> : k \in 1..n - 1} \cup (IF wrap /\ n > 0 THEN {<<s[n], s[1]>>} ELSE {})
                      IN {<<p[1], p[2], Cardinality({k \in 1..n - 1 : s[k] = p[1] /\ s[k + 1] = p[2]}) +
                            (IF wrap /\ s[n] = p[1] /\ s[1] = p[2] THEN 1 ELSE 0)>> : p \in P}

\* ------------------------------------------------------------ a class of two bytes
\* r.ab: for pairs x, y: [eq, ne, lt, gt, hash equal]; r.bin: serialized bytes, r.back: what is read back
OkPair(r) == /\ r.eq = (r.x = r.y) /\ r.ne = (r.x # r.y)
             /\ ~(r.lt /\ r.gt) /\ (r.eq <=> (~r.lt /\ ~r.gt))
             /\ (r.eq => r.hash)
             /\ r.at = r.x /\ r.bin = r.x /\ r.ser = r.x /\ r.back = r.x /\ r.short = <<FALSE, FALSE, TRUE>>
\* an order: transitive
OkOrder(r) == \A a, b, d \in 1..Len(r.m) : r.m[a][b] /\ r.m[b][d] => r.m[a][d]

\* ------------------------------------------------------------ generated files
\* r.stats: list of <<a, b, count>>; r.sizes: bytes found in the file, threads; r.seg: per segment its number of bytes,
\* the set of its adjacent pairs and how often each occurs, its first bytes
Live(r) == {k \in 1..Len(r.stats) : r.stats[k][3] > 0}
Succ(r, a) == {k \in Live(r) : r.stats[k][1] = a}
Chars(r) == {r.stats[k][1] : k \in Live(r)} \cup {r.stats[k][2] : k \in Live(r)}
Weight(r, K) == SumOver(K, LAMBDA k : r.stats[k][3])
Times(s, a) == Sum([k \in 1..Len(s.pairs) |-> IF s.pairs[k][1] = a THEN s.pairs[k][3] ELSE 0])
Count(s, a, b) == Sum([k \in 1..Len(s.pairs) |-> IF s.pairs[k][1] = a /\ s.pairs[k][2] = b THEN s.pairs[k][3] ELSE 0])
Abs(x) == IF x < 0 THEN -x ELSE x

Chained(r, s) ==
  \A k \in 1..Len(s.pairs) :
    LET a == s.pairs[k][1]
        b == s.pairs[k][2]
    IN IF Succ(r, a) # {} THEN \E j \in Succ(r, a) : r.stats[j][2] = b
       ELSE /\ b \in Chars(r) \cup r.own
            \* after a dead end the chain starts again, at the wanted character if that has a successor
            /\ (r.reset >= 0 /\ Succ(r, r.reset) # {} /\ r.oneblock /\ r.own = {}) =>
                 (b = r.reset \/ \E j \in Succ(r, r.reset) : r.stats[j][2] = b)
\* got of n drawn with weight w of t: within seven standard deviations of a binomial distribution, in whole numbers
Fits(got, n, w, t) == LET e == (n * w) \div t
                          d == Abs(got - e)
                      IN d <= 2 \/ (d <= 40000 /\ d * d <= 49 * ((e * (t - w)) \div t + 1))
Proportional(r, s) ==
  \A a \in {r.stats[k][1] : k \in Live(r)} :
    LET n == Times(s, a)
        t == Weight(r, Succ(r, a))
    IN \A j \in Succ(r, a) :
         Fits(Count(s, a, r.stats[j][2]), n, Weight(r, {i \in Succ(r, a) : r.stats[i][2] = r.stats[j][2]}), t)
\* where the chain starts again at random, it does so in proportion too
Restarts(r, s) ==
  (r.reset < 0 /\ r.oneblock /\ r.own = {}) =>
  LET D == {k \in 1..Len(s.pairs) : Succ(r, s.pairs[k][1]) = {}}
      n == SumOver(D, LAMBDA k : s.pairs[k][3])
  IN \A a \in Chars(r) :
       Fits(SumOver({k \in D : s.pairs[k][2] = a}, LAMBDA k : s.pairs[k][3]), n, Weight(r, Succ(r, a)), Weight(r, Live(r)))

\* each thread draws for itself: where there was much to draw, they do not all draw the same
Drawn(r, s) == SumOver({k \in 1..Len(s.pairs) : LET S == Succ(r, s.pairs[k][1]) IN
                          \E j \in S : r.stats[j][3] <= 100000 /\ LET w == Weight(r, {i \in S : r.stats[i][2] = r.stats[j][2]})  t == Weight(r, S) IN w < 100000 /\ t < 200000 /\ w * 5 > t /\ w * 5 < t * 4},
                       LAMBDA k : s.pairs[k][3])
OwnDraw(r) == r.dup <= 1 \/ \E k \in 1..Len(r.seg) : Drawn(r, r.seg[k]) < 200

\* parameters that cannot be met: an error, and the tree as it was
OkRefused(r) == r.rc # 0 /\ r.rc # 1000 /\ r.left = <<"kept", "sub">> /\ r.kept
\* w: writes sorted by place, place and length in units and rest: one after the other, from the beginning to the end
Carry(hi, lo, u) == <<hi + lo \div u, lo % u>>
OkTiles(r) ==
  LET n == Len(r.w)
      end(k) == Carry(r.w[k][1] + r.w[k][3], r.w[k][2] + r.w[k][4], r.u) IN
  /\ r.rc = 0 /\ n > 0
  /\ r.w[1][1] = 0 /\ r.w[1][2] = 0
  /\ \A k \in 1..n - 1 : end(k) = <<r.w[k + 1][1], r.w[k + 1][2]>>
  /\ end(n) = <<r.mb, 0>>

OkGen(r0) ==
  LET r == [r0 EXCEPT !.own = AsSet(r0.own)] IN
  /\ r.found = r.threads * r.each
  /\ r.same
  /\ OwnDraw(r)
  /\ r.others
  /\ \A k \in 1..Len(r.seg) : LET s == r.seg[k] IN
       /\ s.len = r.each
       /\ s.first
       /\ AsSet(s.chars) \subseteq Chars(r) \cup r.own
       /\ Chained(r, s) /\ Proportional(r, s) /\ Restarts(r, s)

Ok(r) == CASE r.k = "stats" -> OkStats(r)
           [] r.k = "pair" -> OkPair(r)
           [] r.k = "order" -> OkOrder(r)
           [] r.k = "refused" -> OkRefused(r)
           [] r.k = "tiles" -> OkTiles(r)
           [] r.k = "gen" -> OkGen(r)
           [] OTHER -> FALSE

=============================================================================
