---- MODULE Api ----
(* C29: the one-call interface (class Wdt). A send runs as long as its call:
   it holds a slot of its namespace under the identity of its destination,
   which nobody else may hold meanwhile; a call may end the send of another
   transfer to the same destination and take its place. A receive holds its
   slot from start to finish. Whatever the outcome, no slot outlives its call
   (a receive: its finish), and nobody gives back a slot that is another's.

   A send that its thread lets go on by itself ("go") is over at "done" at the
   latest; its transfer asking whether to go on ("alive") shows that it is not.

   snd, rcv: slots taken, each with the call that took it (n); ab: sends ended
   by others; used: receivers that a send went to. *)
EXTENDS Integers, Sequences, FiniteSets

Errors == {"ERROR", "ABORT", "CONN_ERROR", "CONN_ERROR_RETRYABLE", "SOCKET_READ_ERROR", "SOCKET_WRITE_ERROR",
           "ABORTED_BY_APPLICATION", "PROTOCOL_ERROR", "NO_PROGRESS", "ID_MISMATCH", "TRANSFER_LOG_ACQUIRE_ERROR", "WDT_TIMEOUT"}

ApiS0(cfg) == [snd |-> {}, rcv |-> {}, n |-> 0, ab |-> {}, used |-> {}, ok |-> {}, late |-> {},
                det |-> [t \in 0 .. cfg.nthr - 1 |-> <<>>]]

Room(cfg, S, w, all, each) ==
  /\ all <= 0 \/ Cardinality(S) < all
  /\ each <= 0 \/ Cardinality({x \in S : x.w = w}) < each
\* slots are taken for a moment by calls that get none: others may be refused meanwhile
Tight(cfg, S, w, all, each) ==
  \/ all > 0 /\ Cardinality(S) + cfg.nthr - 1 >= all
  \/ each > 0 /\ Cardinality({x \in S : x.w = w}) + cfg.nthr - 1 >= each

SRoom(cfg, s, w) == Room(cfg, s.snd, w, cfg.gsl, cfg.nsl)
STight(cfg, s, w) == Tight(cfg, s.snd, w, cfg.gsl, cfg.nsl)
RRoom(cfg, s, w) == Room(cfg, s.rcv, w, cfg.grl, cfg.nrl)
RTight(cfg, s, w) == Tight(cfg, s.rcv, w, cfg.grl, cfg.nrl)

Full(s, tight) == IF tight THEN {[s |-> s, r |-> "QUOTA_EXCEEDED"]} ELSE {}

\* takes a slot and goes on as "run"
Take(cfg, s, w, key, id, how) ==
  [s |-> [s EXCEPT !.snd = @ \cup {[w |-> w, key |-> key, id |-> id, n |-> s.n]}, !.n = @ + 1],
   op |-> <<"run", w, key, s.n, how>>]

Rid(how) == IF how = "to_1" THEN 1 ELSE IF how = "to_2" THEN 2 ELSE 0

Send(cfg, s, w, key, i, term, how, again) ==
  LET id == IF Rid(how) # 0 THEN 10 + Rid(how) ELSE i  \* of the transfer
      old == {x \in s.snd : x.w = w /\ x.key = key} IN
  IF how = "badreq" THEN {[s |-> s, r |-> "URI_PARSE_ERROR"]}
  ELSE Full(s, STight(cfg, s, w)) \cup
    (IF old = {} THEN IF SRoom(cfg, s, w) THEN {Take(cfg, s, w, key, id, how)} ELSE {}
     ELSE {[s |-> s, r |-> "ALREADY_EXISTS"] : x \in {y \in old : again \/ term = 0 \/ y.id = id}} \cup
          (IF term = 1 /\ ~again
           THEN {[s |-> [s EXCEPT !.snd = @ \ {x}, !.ab = @ \cup {x.n}],
                  op |-> <<"again", w, key, i, term, how>>] : x \in {y \in old : y.id # id}}
           ELSE {}))

\* the transfer itself, and the end of the call
Run(cfg, s, w, key, n, how) ==
  LET mine == {x \in s.snd : x.n = n}
      to == {x \in s.rcv : x.w = w /\ x.id = Rid(how)}
      sure == cfg.nthr = 1 /\ to # {} /\ \A x \in to : x.n \notin s.used
      codes == IF how = "baddir" THEN {"INVALID_REQUEST", "ERROR"}
               ELSE IF n \in s.ab THEN Errors \cup {"OK"}
               ELSE IF sure THEN {"OK"}
               ELSE IF how = "none" \/ (cfg.nthr = 1 /\ to = {}) THEN {"CONN_ERROR"}
               ELSE Errors \cup {"OK"} IN
  {[s |-> [s EXCEPT !.snd = @ \ mine, !.used = @ \cup {x.n : x \in to}, !.ok = @ \cup (IF c = "OK" THEN {x.n : x \in to} ELSE {})],
    r |-> c] : c \in codes}

RStart(cfg, s, w, id, how) ==
  LET old == {x \in s.rcv : x.w = w /\ x.id = id} IN
  IF how = "badreq" THEN {[s |-> s, r |-> "URI_PARSE_ERROR"]}
  ELSE Full(s, RTight(cfg, s, w)) \cup
    (IF old # {} THEN {[s |-> s, r |-> "ALREADY_EXISTS"]}
     ELSE IF ~RRoom(cfg, s, w) THEN {}
     ELSE IF how = "baddir"  \* held while the call lasts
     THEN {[s |-> [s EXCEPT !.rcv = @ \cup {[w |-> w, id |-> id, n |-> s.n]}, !.n = @ + 1], op |-> <<"rbad", s.n>>]}
     ELSE {[s |-> [s EXCEPT !.rcv = @ \cup {[w |-> w, id |-> id, n |-> s.n]}, !.n = @ + 1], r |-> "OK"]})

RFinish(cfg, s, w, id) ==
  LET it == {x \in s.rcv : x.w = w /\ x.id = id} IN
  IF it = {} THEN {[s |-> s, r |-> "NOT_FOUND"]}
  ELSE {[s |-> s, op |-> <<"rend", x.n>>] : x \in it}

REnd(cfg, s, n) ==
  LET mine == {x \in s.rcv : x.n = n}
      codes == IF cfg.nthr = 1 THEN IF n \in s.ok THEN {"OK"} ELSE IF n \in s.used THEN Errors ELSE {"CONN_ERROR"}
               ELSE Errors \cup {"OK"} IN
  \* waiting for a sender in vain takes as long as the other receivers wait
  {[s |-> [s EXCEPT !.rcv = @ \ mine, !.used = IF c = "CONN_ERROR" THEN @ \cup {x.n : x \in s.rcv} ELSE @], r |-> c] : c \in codes}

\* the sends that go on may be over any time
Over(s) == LET D == {x \in s.snd : \E t \in DOMAIN s.det : s.det[t] # <<>> /\ s.det[t][1] = x.n} IN
           {[s EXCEPT !.snd = @ \ E] : E \in SUBSET D}

Go(cfg, s, t, op) ==
  {IF "op" \in DOMAIN x /\ x.op[1] = "run"
   THEN IF x.op[5] = "baddir" THEN x ELSE [s |-> [x.s EXCEPT !.det[t] = <<x.op[4], x.op[5], op[2]>>], r |-> "running"]
   ELSE IF "op" \in DOMAIN x THEN [x EXCEPT !.op = <<"goagain">> \o Tail(@)]
   ELSE x : x \in Send(cfg, s, op[2], op[3], op[4], op[5], op[6], op[1] = "goagain")}

\* one that was ended stops asking (a question may have been under way)
Alive(s, t) ==
  {[s |-> s, r |-> FALSE]} \cup
  (IF s.det[t] = <<>> THEN {}
   ELSE LET n == s.det[t][1] IN
        IF n \in s.ab THEN IF n \in s.late THEN {} ELSE {[s |-> [s EXCEPT !.late = @ \cup {n}], r |-> TRUE]}
        ELSE IF \E x \in s.snd : x.n = n THEN {[s |-> s, r |-> TRUE]} ELSE {})

Done(cfg, s, t) ==
  IF s.det[t] = <<>> THEN {[s |-> s, r |-> "none"]}
  ELSE Run(cfg, [s EXCEPT !.det[t] = <<>>], s.det[t][3], 0, s.det[t][1], s.det[t][2])

ApiStep0(cfg, s, t, op) ==
  CASE op[1] \in {"go", "goagain"} -> Go(cfg, s, t, op)
  [] op[1] = "alive" -> Alive(s, t)
  [] op[1] = "done" -> Done(cfg, s, t)
  [] op[1] = "send" -> Send(cfg, s, op[2], op[3], op[4], op[5], op[6], FALSE)
  [] op[1] = "again" -> Send(cfg, s, op[2], op[3], op[4], op[5], op[6], TRUE)
  [] op[1] = "run" -> Run(cfg, s, op[2], op[3], op[4], op[5])
  [] op[1] = "rstart" -> RStart(cfg, s, op[2], op[3], op[4])
  [] op[1] = "rbad" -> {[s |-> [s EXCEPT !.rcv = {x \in @ : x.n # op[2]}], r |-> c] : c \in {"INVALID_REQUEST", "ERROR"}}
  [] op[1] = "rfinish" -> RFinish(cfg, s, op[2], op[3])
  [] op[1] = "rend" -> REnd(cfg, s, op[2])
  \* asked only when no other call is in progress
  [] op[1] = "count" -> {[s |-> s, r |-> <<Cardinality(s.snd), Cardinality(s.rcv)>>]}
  [] op[1] \in {"same", "sleep", "bye", "join"} -> {[s |-> s, r |-> TRUE]}
  [] OTHER -> {}

ApiStep(cfg, s, t, op) == UNION {ApiStep0(cfg, x, t, op) : x \in IF op[1] \in {"send", "again", "go", "goagain", "count"} THEN Over(s) ELSE {s}}

\* what it is for
OneEach(s) == /\ \A x, y \in s.snd : x.w = y.w /\ x.key = y.key => x = y
              /\ \A x, y \in s.rcv : x.w = y.w /\ x.id = y.id => x = y
Within(cfg, s) ==
  /\ cfg.gsl > 0 => Cardinality(s.snd) <= cfg.gsl
  /\ cfg.grl > 0 => Cardinality(s.rcv) <= cfg.grl
  /\ \A w \in {"a", "b"} : /\ cfg.nsl > 0 => Cardinality({x \in s.snd : x.w = w}) <= cfg.nsl
                           /\ cfg.nrl > 0 => Cardinality({x \in s.rcv : x.w = w}) <= cfg.nrl
====
