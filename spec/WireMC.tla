------------------------------- MODULE WireMC -------------------------------
(* Round trips of Wire: every message of a set is read back as it was written,
   and none of its beginnings is accepted.  Prints the messages. *)
EXTENDS Wire, Json
CONSTANT Deep  \* how many fields differ from the ordinary
VARIABLE m

P(n) == [j \in 1..8 |-> IF j - 1 = n \div 8 THEN Pow2[(n % 8) + 1] ELSE 0]                                                 \* 2^n
M(n) == [j \in 1..8 |-> IF j - 1 < n \div 8 THEN 255 ELSE IF j - 1 = n \div 8 THEN Pow2[(n % 8) + 1] - 1 ELSE 0]          \* 2^n - 1
Neg(n) == [j \in 1..8 |-> 255 - M(n)[j]]                                                                                \* -2^n
N31 == {Zero, Small(1), M(6), P(6), M(7), P(7), M(14), P(14), M(31)}
N63 == N31 \cup {P(31), P(32), P(35), M(49), P(49), M(55), P(55), M(56), P(56), M(62), P(62), M(63)}
NU == N63 \cup {P(63), Ones}
NZ32 == {Zero, Small(1), M(6), P(6), Neg(0), Neg(6), Neg(7), M(31), Neg(31)}
NZ == NU \cup NZ32 \cup {Neg(32), Neg(55), Neg(56)}
Strs == {<<>>, <<97>>, <<0, 255, 128>>, Rep(127, 98), Rep(128, 99), Rep(300, 47)}
Values(t) == CASE t = "u" -> NU [] t = "u63" -> N63 [] t = "u31" -> N31 [] t = "z" -> NZ [] t = "z32" -> NZ32
               [] t = "s" -> Strs [] t = "b" -> {0, 1, 14, 127, 255} [] t = "f4" -> N31 [] t = "f8" -> N63
               [] t = "flags" -> 0..15 [] t = "status" -> 0..4 [] t = "version" -> {Small(v) : v \in {10, 11, 12, 27, 32}}
               [] t = "enctype" -> {Small(x) : x \in 0..2}
               [] t = "ivs" -> {<<>>, << <<Zero, Zero>> >>, << <<Zero, M(14)>>, <<P(14), M(63)>> >>, Rep(130, <<Small(127), P(7)>>)}
Base(t) == CASE t = "s" -> <<102>> [] t \in {"b", "flags"} -> 1 [] t = "status" -> 0 [] t = "version" -> Small(32) [] t = "ivs" -> <<>>
             [] t = "enctype" -> Small(2) [] OTHER -> Small(5)
\* fields of which at most n differ from the ordinary
RECURSIVE Vary(_, _)
Vary(ts, n) == IF ts = <<>> THEN {<<>>}
               ELSE {<<Base(Head(ts))>> \o r : r \in Vary(Tail(ts), n)} \cup
                    (IF n = 0 THEN {} ELSE {<<x>> \o r : x \in Values(Head(ts)), r \in Vary(Tail(ts), n - 1)})
Types == [u |-> <<"u">>, i |-> <<"z">>, i32 |-> <<"z32">>, str |-> <<"s">>, done |-> <<"u63", "u63">>, size |-> <<"u63">>,
          settings |-> <<"version", "u31", "u31", "s", "flags">>, header |-> <<"s", "u63", "u63", "u63", "u63", "status", "u63">>,
          abort |-> <<"f4", "b", "f8">>, chunks |-> <<"f8", "f8">>, file |-> <<"u63", "s", "u63", "ivs">>,
          encryption |-> <<"enctype", "s", "f4">>, footer |-> <<"z32">>]
Versions(k) == CASE k = "header" -> {10, 12, 13, 32} [] k = "done" -> {10, 15, 16, 32} [] k = "checkpoints" -> {10, 15, 16, 20, 21, 26, 27, 32} [] OTHER -> {32}
Kinds == DOMAIN Types \cup DOMAIN LogFields \cup {"checkpoints"}
Msgs(k) ==
  CASE k = "settings" -> {[kind |-> k, v |-> Val(f[1]), f |-> f] : f \in Vary(Types[k], Deep)}
    [] k = "checkpoints" -> {[kind |-> k, v |-> v, f |-> <<<<Small(22356)>> \o c>>] : c \in Vary(<<"u63", "u63", "u63", "u63">>, Deep), v \in Versions(k)}
                            \cup {[kind |-> k, v |-> v, f |-> Rep(n, <<Small(1), P(14), Zero, M(63), Small(3)>>)] : v \in Versions(k), n \in {0, 2, 130}}
    [] k \in DOMAIN LogFields -> {[kind |-> k, v |-> 0, f |-> <<Small(77777)>> \o x] : x \in Vary(Tail(LogFields[k]), Deep)}
    [] OTHER -> {[kind |-> k, v |-> v, f |-> f] : f \in Vary(Types[k], Deep), v \in Versions(k)}

\* what the peer makes of the fields
Seen(k, v, f) ==
  CASE k = "settings" -> SubSeq(f, 2, 4) \o <<IF v >= SETTINGS_FLAG THEN f[5] ELSE 0>>
    [] k = "header" -> SubSeq(f, 1, 5) \o (IF v < HEADER_FLAG THEN <<0, Zero>> ELSE <<f[6], IF f[6] \in {TooLarge, TooSmall} THEN f[7] ELSE Zero>>)
    [] k = "checkpoints" -> [j \in 1..Len(f) |-> CpFull(v, CpKnown(v, f[j]))]
    [] k = "done" -> <<f[1], IF v >= CHECKPOINT_OFFSET THEN f[2] ELSE Zero>>
    [] OTHER -> f

IsLog == m.kind \in DOMAIN LogFields
Bytes == Enc(m.kind, m.v, m.f)
\* where the part starts that Dec reads
From == IF IsLog THEN 4 ELSE IF m.kind = "settings" THEN ReadVar(Bytes, 1).p ELSE 1
RoundTrip == LET b == Bytes
                 x == Dec(m.kind, m.v, b, From)
             IN x.ok /\ x.out = Seen(m.kind, m.v, m.f) /\ x.p = Len(b) + 1
\* long messages: only some of the beginnings
NoBeginning == LET b == Bytes
                   k == IF Len(b) > 60 THEN 2 ELSE 60
               IN \A n \in From..Len(b) : (n < From + k \/ n > Len(b) - k) => LET x == Dec(m.kind, m.v, SubSeq(b, 1, n - 1), From) IN ~x.ok
Dump == PrintT(<<"CASE", ToJson(m)>>)
Chosen == m.v >= 0
Inv == Chosen => RoundTrip /\ NoBeginning /\ Dump

Init == m \in {[kind |-> k, v |-> -1, f |-> <<>>] : k \in Kinds}
Next == ~Chosen /\ m' \in Msgs(m.kind)
Spec == Init /\ [][Next]_m
=============================================================================
