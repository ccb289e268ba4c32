---- MODULE Throttle ----
(* C16: what a throttled group of threads may send.
   A period is the time between two resets of the budget (the first user
   arrives, rates are set). rel: the requests granted in it, in the order in
   which they returned: b bytes let go at time t; from: when the period
   began; slack: what may be in progress besides (one request of each thread).
   Rates are in bytes per D units of time; 0 or less is none. *)
EXTENDS Integers, Sequences, FiniteSets

Max(a, b) == IF a > b THEN a ELSE b
RECURSIVE SumB(_, _, _)
SumB(rel, i, j) == IF i > j THEN 0 ELSE rel[i].b + SumB(rel, i + 1, j)

\* the documented rules for rates left open or contradicting each other
Effective(avg, peak, burst) ==
  LET p == IF peak >= 0 /\ peak < avg THEN (12 * avg) \div 10 ELSE peak
      b == IF burst <= 0 /\ p > 0 THEN p \div 2 ELSE burst IN
  [avg |-> avg, peak |-> p, burst |-> b]

\* bytes in a time (in two steps: numbers have 31 bits)
Made(dt, rate, D) == (dt \div D) * rate + ((dt % D) * rate) \div D

AvgOk(rel, from, e, D) == e.avg > 0 => \A j \in 1..Len(rel) :
   (SumB(rel, 1, j) - 1) <= Made(rel[j].t - from, e.avg, D) + 1

PeakOk(rel, e, D, slack) == e.peak > 0 => \A i, j \in 1..Len(rel) : i < j =>
   SumB(rel, i + 1, j) <= e.burst + Made(rel[j].t - rel[i].t, e.peak, D) + slack + (j - i) + 2

(* A recorded run: its operations in the order of their returns, each with the
   positions c and r of its call and return in the history. *)
Boundary(r, o) ==  \* "reset", "maybe" or "no"
  IF o.k = "set" THEN "reset"
  ELSE IF o.k # "start" THEN "no"
  ELSE LET St == {x \in 1..Len(r.ops) : r.ops[x].k = "start" /\ r.ops[x] # o}
           EndOf(x) == {y \in 1..Len(r.ops) : r.ops[y].k = "end" /\ r.ops[y].t = r.ops[x].t /\ r.ops[y].c > r.ops[x].r}
           Over(x) == \E y \in EndOf(x) : r.ops[y].r < o.c    \* surely gone
           On(x) == r.ops[x].r < o.c /\ \A y \in EndOf(x) : r.ops[y].c > o.r \/ \E z \in EndOf(x) : r.ops[z].c < r.ops[y].c /\ r.ops[z].c > o.r
       IN IF \A x \in St : r.ops[x].c > o.r \/ Over(x) THEN "reset"
          ELSE IF \E x \in St : On(x) THEN "no" ELSE "maybe"

Bounds(r) == [n \in 1..Len(r.ops) |-> Boundary(r, r.ops[n])]
\* rates in force after operation n (its own or the last set before)
RatesAt(r, n) == LET S == {m \in 1..n : r.ops[m].k = "set"} IN
  IF S = {} THEN Effective(r.cfg.avg, r.cfg.peak, r.cfg.burst)
  ELSE LET m == CHOOSE m \in S : \A q \in S : q <= m IN Effective(r.ops[m].avg, r.ops[m].peak, r.ops[m].burst)

D0 == 10000
PeriodOk(r, bs, n) ==  \* the period that operation n began
  LET o == r.ops[n]
      later == {m \in n + 1..Len(r.ops) : bs[m] # "no"}
      upto == IF later = {} THEN 100000000 ELSE LET L == {r.ops[m].c : m \in later} IN CHOOSE x \in L : \A y \in L : x <= y
      \* some boundary call began before this one returned: cannot tell which came first
      muddled == \E m \in 1..Len(r.ops) : m # n /\ bs[m] # "no" /\ r.ops[m].c < o.r /\ r.ops[m].r > o.c
      sel(x) == x.k = "req" /\ x.c > o.r /\ x.r < upto
      rel0 == SelectSeq(r.ops, sel)
      rel == [q \in 1..Len(rel0) |-> [b |-> rel0[q].b, t |-> rel0[q].t1]]
      big == LET B == {r.ops[q].b : q \in {x \in 1..Len(r.ops) : r.ops[x].k = "req"}} \cup {0} IN CHOOSE x \in B : \A y \in B : y <= x
      e == RatesAt(r, n)
  IN muddled \/ (AvgOk(rel, o.t0, e, D0) /\ PeakOk(rel, e, D0, r.cfg.nthr * big))

GetOk(r, n) == LET o == r.ops[n] IN
  (o.k = "get" /\ ~\E m \in 1..Len(r.ops) : r.ops[m].k = "set" /\ r.ops[m].c < o.r /\ r.ops[m].r > o.c)
     => LET e == RatesAt(r, n) IN o.got = <<e.avg, e.peak, e.burst>>

Ok(r) == r.alive /\ LET bs == Bounds(r) IN \A n \in 1..Len(r.ops) : (bs[n] = "reset" => PeriodOk(r, bs, n)) /\ GetOk(r, n)
====
