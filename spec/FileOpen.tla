---- MODULE FileOpen ----
(* C05: opening files for the blocks that arrive. A file has a sequence id; the
   first thread to ask for it creates (or reopens) and sizes it, the others wait
   and see the same outcome.

   fs[f]: the bytes of file f, or <<-1>> for none. st[q]: "busy", "ok", "no" for
   the sequence ids seen. fd[t]: the file thread t has open, "" for none. log:
   the entries of the transfer log. lost: written bytes an opening destroyed.
   Sizing to 9 bytes fails for want of space, cutting to 7 for no reason. *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Files == {"f1", "f2", "d/f3", "d/e/f4", "x/f5"}
None == <<-1>>
Fill(n, v) == [i \in 1..n |-> v]
Init0(n) == IF n < 0 THEN None ELSE Fill(n, 7)
FoS0(cfg) == [fs |-> [f \in Files |-> CASE f = "f1" -> Init0(cfg.f1) [] f = "f2" -> Init0(cfg.f2) [] f = "d/f3" -> Init0(cfg.f3)
                                         [] f = "d/e/f4" -> Init0(cfg.f4) [] OTHER -> None],
              st |-> [q \in 0..9 |-> "new"], fd |-> [t \in 0..3 |-> ""], log |-> <<>>, made |-> [q \in 0..9 |-> 0],
              wr |-> [f \in Files |-> {}]]
Logged(cfg) == cfg.res = 1 /\ cfg.tree = 0
Creatable(f) == f # "x/f5"

\* sizing; <<done, bytes>>
Size(cfg, c, n) ==
  LET cut == Len(c) > n
      c1 == IF ~cut THEN c ELSE IF cfg.pre = 1 THEN SubSeq(c, 1, n) ELSE <<>> IN
  IF cut /\ n = 7 /\ cfg.pre = 1 THEN <<FALSE, c>>
  ELSE IF n = 0 \/ cfg.pre = 0 THEN <<TRUE, c1>>
  ELSE IF n = 9 THEN <<FALSE, c1>>
  ELSE <<TRUE, c1 \o Fill(n - Len(c1), 0)>>

Has(s, f) == f \in Files /\ s.fs[f] # None
Reopen(s, t, f) == IF Has(s, f) THEN {[s |-> [s EXCEPT !.fd[t] = f], r |-> TRUE]} ELSE {[s |-> [s EXCEPT !.fd[t] = ""], r |-> FALSE]}
Refuse(s, t, q) == {[s |-> [s EXCEPT !.st[q] = "no", !.fd[t] = ""], r |-> FALSE]}
LogAnd(cfg, s, e) == IF Logged(cfg) THEN [s EXCEPT !.log = Append(@, e)] ELSE s

\* the first to ask
First(cfg, s, t, f, q, n, how) ==
  LET there == Has(s, f)
      keep == IF how = "NOT_EXISTS" THEN <<>> ELSE s.fs[f] IN
  IF how = "NOT_EXISTS" /\ (~Creatable(f) \/ (there /\ cfg.ow = 0 /\ cfg.res = 0)) THEN Refuse(s, t, q)
  ELSE IF how # "NOT_EXISTS" /\ ~there THEN Refuse(s, t, q)
  ELSE LET z == Size(cfg, keep, n)
           s1 == [s EXCEPT !.fs[f] = z[2], !.made[q] = @ + 1] IN
       IF ~z[1] THEN Refuse(s1, t, q)
       ELSE {[s |-> s1, op |-> <<IF how = "TOO_LARGE" THEN "inval" ELSE "entry", f, q, n, how>>]}

FoStep(cfg, s, t, op) ==
  CASE op[1] = "open" ->
         LET f == op[2] q == op[3] n == op[4] how == op[5] IN
         IF how = "DELETE" THEN {[s |-> [s EXCEPT !.fs[f] = None, !.fd[t] = "", !.wr[f] = {}], r |-> FALSE]}
         ELSE IF s.st[q] = "busy" THEN {}
         ELSE IF s.st[q] = "no" THEN {[s |-> [s EXCEPT !.fd[t] = ""], r |-> FALSE]}
         ELSE IF s.st[q] = "ok" THEN Reopen(s, t, f)
         ELSE IF how = "CORRECT" THEN {[s |-> [s EXCEPT !.st[q] = "ok"], op |-> op]}
         ELSE {[s |-> [s EXCEPT !.st[q] = "busy"], op |-> <<"make", f, q, n, how>>]}
    [] op[1] = "make" -> First(cfg, s, t, op[2], op[3], op[4], op[5])
    [] op[1] = "inval" -> {[s |-> LogAnd(cfg, s, <<"I", op[3] + 10>>), op |-> <<"entry", op[2], op[3], op[4], op[5]>>]}
    [] op[1] = "entry" -> {[s |-> [LogAnd(cfg, s, IF op[5] = "TOO_SMALL" THEN <<"R", op[3], op[4]>> ELSE <<"C", op[3], op[4], op[2]>>)
                                     EXCEPT !.st[op[3]] = "ok", !.fd[t] = op[2]], r |-> TRUE]}
    [] op[1] = "write" ->   \* n times v at offset o
         LET f == s.fd[t] o == op[2] v == op[3] n == op[4] IN
         IF f = "" THEN {[s |-> s, r |-> FALSE]}
         ELSE IF ~Has(s, f) THEN {[s |-> s, r |-> TRUE]}
         ELSE LET c == s.fs[f]
                  m == IF o + n > Len(c) THEN o + n ELSE Len(c) IN
              {[s |-> [s EXCEPT !.fs[f] = [i \in 1..m |-> IF i > o /\ i <= o + n THEN v ELSE IF i <= Len(c) THEN c[i] ELSE 0],
                                !.wr[f] = (@ \ {w \in @ : w[1] > o /\ w[1] <= o + n}) \cup {<<i, v>> : i \in (o + 1)..(o + n)}], r |-> TRUE]}
    [] op[1] = "blk" -> {[s |-> IF s.fd[t] = "" THEN s ELSE LogAnd(cfg, s, <<"B", op[2]>>), r |-> s.fd[t] # ""]}
    [] op[1] = "read" -> {[s |-> s, r |-> s.fs[op[2]]]}
    [] op[1] = "log" -> {[s |-> s, r |-> s.log]}
    [] op[1] = "clear" -> {[s |-> [s EXCEPT !.st = [q \in 0..9 |-> "new"], !.made = [q \in 0..9 |-> 0], !.wr = [f \in Files |-> {}]], r |-> TRUE]}
    [] op[1] = "rmdir" ->
         {[s |-> [s EXCEPT !.fs = [f \in Files |-> IF f \in {"d/f3", "d/e/f4"} THEN None ELSE s.fs[f]],
                           !.fd = [u \in 0..3 |-> IF s.fd[u] \in {"d/f3", "d/e/f4"} THEN "gone" ELSE s.fd[u]],
                           !.wr = [f \in Files |-> IF f \in {"d/f3", "d/e/f4"} THEN {} ELSE s.wr[f]]], r |-> TRUE]}
    [] op[1] = "fds" -> {[s |-> s, r |-> 0]}
    [] OTHER -> {[s |-> s, r |-> TRUE]}

\* what holds of the specification itself
OneMaker(s) == \A q \in 0..9 : s.made[q] <= 1
Kept(s) == \A f \in Files : \A w \in s.wr[f] : Has(s, f) /\ w[1] <= Len(s.fs[f]) /\ s.fs[f][w[1]] = w[2]
\* no block is logged before its file is
Ordered(cfg, s) == \A i \in 1..Len(s.log) : s.log[i][1] = "B" /\ (\E j \in 1..Len(s.log) : s.log[j][1] = "C" /\ s.log[j][2] = s.log[i][2])
                     => \E j \in 1..(i - 1) : s.log[j][1] = "C" /\ s.log[j][2] = s.log[i][2]
====
