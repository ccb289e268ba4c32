---- MODULE Cli ----
(* C30: the command line tool. A session: a receiving process prints the
   address of the transfer, with its key, on standard output; a sending one is
   given it. What each is told (c), how they end (exit statuses rrc, src),
   what they print, and what is at the destination.

   c.url: how the sender knows the receiver: "stdin", "flag", "manual" (host,
   port and transfer id, unencrypted) or, not at all as it should, "none" (no
   sender), "empty", "garbage", "wrongid", "wrongkey", "badkey" (the address is
   wrong elsewhere but for the key), "badsecret" (the key is not one)
   c.rarg, c.sarg: "ok", "badflag", "extra"; "lenient": an unknown flag, to be ignored;
   "nodir": no destination
   c.man: files to send: "no" (the tree), "some", "short" (beginnings), "missing"
   (some are not there), "fields", "blank" (lines that are no entries), "nofile" (there is no list), "empty"
   c.port: "free", "taken" (one of two), "strict" (and that is an error)
   c.fork: the receiver goes into the background; c.abort: both end after a second
   c.sdir: "ok", "none"; c.resume: with a log
   c.daemon: the receiver serves again and again *)
EXTENDS Integers, Sequences, FiniteSets

Set(l) == {l[k] : k \in 1..Len(l)}
Starts(c) == c.rarg \in {"ok", "lenient"} /\ c.port # "strict"
Asked(c) == Starts(c) /\ c.url # "none"
\* the sender is one that should succeed
Reaches(c) == Asked(c) /\ c.url \in {"stdin", "flag", "manual"} /\ c.sarg \in {"ok", "lenient"} /\ c.sdir = "ok"
Good(c) == Reaches(c) /\ c.man \in {"no", "some", "short", "empty"}
\* an unknown flag ignored: what is not a flag is ignored with it, and an address on standard input not read
Deaf(c) == c.sarg = "lenient" /\ c.url # "flag" /\ c.url # "manual"

RefusedCodes(c) == IF c.rarg \in {"badflag", "extra"} THEN {1} ELSE IF c.rarg = "nodir" THEN 1 .. 255 ELSE {19}
SenderCodes(c) ==
  IF c.sarg \in {"badflag", "extra"} THEN {1}
  ELSE IF c.url = "empty" THEN {20}
  ELSE IF c.url \in {"garbage", "badkey", "badsecret"} THEN {1}
  ELSE IF Good(c) THEN {0}
  ELSE 1 .. 300  \* above 256: ended by a signal
ReceiverCodes(c) ==
  IF c.fork THEN {0}
  ELSE IF Good(c) THEN {0}
  ELSE IF c.abort THEN 1 .. 255
  ELSE IF Reaches(c) /\ c.man = "missing" THEN 0 .. 255
  ELSE 1 .. 255

\* r.src, r.list, r.dst, r.dst0: <<name, size, content>>; list: wanted by the list of files
Want(r) == IF r.c.man \in {"some", "short", "missing", "empty"} THEN Set(r.list) ELSE Set(r.src)

OkSession(r) ==
  LET c == r.c IN
  /\ ~r.leak  \* the key goes to standard output only
  /\ ~r.hung
  /\ Starts(c) => r.urls = 1 /\ r.other = 0
  /\ ~Starts(c) => r.urls = 0 /\ r.rrc \in RefusedCodes(c)
  /\ Asked(c) => r.src_rc \in SenderCodes(c) /\ r.sout = 0
  /\ Starts(c) /\ ~c.daemon => r.rrc \in ReceiverCodes(c)
  \* background: the first process does not wait for the transfer, nor does who reads its output
  /\ Starts(c) /\ c.fork => r.early
  /\ (Asked(c) /\ r.src_rc = 0 /\ ~c.fork /\ ~c.daemon) => r.rrc = 0
  /\ Asked(c) /\ r.src_rc = 0 => Set(r.dst) = Want(r) \cup Set(r.dst0)
  /\ Set(r.dst0) \subseteq Set(r.dst)
  /\ ~Reaches(c) \/ c.man = "nofile" => Set(r.dst) = Set(r.dst0)
  /\ Reaches(c) => \A f \in Set(r.dst) \ Set(r.dst0) : \E w \in Want(r) : w[1] = f[1]
  \* a list is worked off up to the file that is not there
  /\ Reaches(c) /\ c.man = "missing" => Set(r.dst) \subseteq Want(r) \cup Set(r.dst0)
  \* the log: read, and of a session that has one
  /\ c.resume /\ Good(c) => r.plog = 0

OkOptions(r) == r.rc = 0 /\ r.urls = 0 /\ r.lines > 20 /\ r.set = r.want

Ok(r) == CASE r.k = "session" -> OkSession(r)
         [] r.k = "options" -> OkOptions(r)
         [] OTHER -> FALSE
====
