---- MODULE CliMC ----
(* Sessions to try: every way in which at most two things differ from the ordinary. *)
EXTENDS Cli, TLC, Json
VARIABLE cs
Plain == [url |-> "stdin", rarg |-> "ok", sarg |-> "ok", man |-> "no", port |-> "free", fork |-> FALSE, abort |-> FALSE, sdir |-> "ok", resume |-> FALSE, daemon |-> FALSE]
Change == {<<"url", v>> : v \in {"flag", "manual", "none", "empty", "garbage", "wrongid", "wrongkey", "badkey", "badsecret"}}
     \cup {<<"rarg", v>> : v \in {"badflag", "extra", "lenient", "nodir"}} \cup {<<"sarg", v>> : v \in {"badflag", "extra"}}
     \cup {<<"man", v>> : v \in {"some", "short", "missing", "fields", "blank", "nofile", "empty"}} \cup {<<"port", v>> : v \in {"taken", "strict"}}
     \cup {<<"sdir", "none">>}
Flag == {"fork", "abort", "resume", "daemon"}
With(c, x) == [c EXCEPT ![x[1]] = x[2]]
One == {Plain} \cup {With(Plain, x) : x \in Change} \cup {[Plain EXCEPT ![f] = TRUE] : f \in Flag}
Two == {With(c, x) : c \in One, x \in Change} \cup {[c EXCEPT ![f] = TRUE] : c \in One, f \in Flag}
\* those that have an end and make sense
Sane(c) == /\ ~(c.daemon /\ (c.fork \/ c.abort \/ c.resume \/ c.port # "free"))
           /\ c.url = "manual" => c.port = "free"
           /\ c.abort => c.url # "stdin" \/ TRUE
           /\ c.man = "empty" => c.sdir = "ok"
           /\ c.fork => ~c.resume
Init == cs \in {c \in One \cup Two : Sane(c)}
Next == UNCHANGED cs
Spec == Init /\ [][Next]_cs
\* a session that should succeed is one in which nothing is wrong
Sensible == /\ Good(cs) => Starts(cs) /\ SenderCodes(cs) = {0} /\ 0 \in ReceiverCodes(cs)
            /\ (0 \in SenderCodes(cs) => Good(cs))
Dump == PrintT(<<"CASE", ToJson(cs)>>)
====
