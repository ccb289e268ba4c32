-------------------------------- MODULE Wire --------------------------------
(* The bytes of WDT's messages and log entries.

   Numbers are 64 bits wide, given as 8 bytes, least significant first; byte
   strings are sequences of 0..255.  A message is its kind and the sequence of
   its fields; Enc gives its bytes for a protocol version, Dec reads it back. *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Pow2 == <<1, 2, 4, 8, 16, 32, 64, 128>>
Zero == <<0, 0, 0, 0, 0, 0, 0, 0>>
Ones == <<255, 255, 255, 255, 255, 255, 255, 255>>
Small(n) == <<n % 256, (n \div 256) % 256, (n \div 65536) % 256, n \div 16777216, 0, 0, 0, 0>>
Fits63(b) == b[8] < 128
Fits31(b) == b[4] < 128 /\ \A j \in 5..8 : b[j] = 0
Val(b) == b[1] + 256 * b[2] + 65536 * b[3] + 16777216 * b[4]  \* if Fits31
LeqTop(a, b) == \* a <= b as unsigned numbers
  a = b \/ LET D == {j \in 1..8 : a[j] # b[j]} IN LET m == CHOOSE j \in D : \A k \in D : k <= j IN a[m] < b[m]

\* ------------------------------------------------------------ numbers
\* 7 bits to a byte, least significant first, the top bit says that more follow; the ninth byte has 8 bits
Group(b, g) == LET i == (7 * g) \div 8
                   k == (7 * g) % 8
               IN IF g = 8 THEN b[8] ELSE (b[i + 1] \div Pow2[k + 1] + (IF k = 0 THEN 0 ELSE b[i + 2] * Pow2[9 - k])) % 128
RECURSIVE LastGroup(_, _)
LastGroup(b, g) == IF g = 0 \/ Group(b, g) # 0 THEN g ELSE LastGroup(b, g - 1)
Var(b) == LET n == LastGroup(b, 8) + 1 IN [i \in 1..n |-> Group(b, i - 1) + (IF i < n THEN 128 ELSE 0)]
\* signed: 0, -1, 1, -2, ... become 0, 1, 2, 3, ...
Not(neg, x) == IF neg THEN 255 - x ELSE x
ZigZag(b) == [j \in 1..8 |-> Not(b[8] >= 128, ((2 * b[j]) % 256) + (IF j > 1 THEN b[j - 1] \div 128 ELSE 0))]
UnZigZag(b) == [j \in 1..8 |-> Not(b[1] % 2 = 1, b[j] \div 2 + (IF j < 8 THEN (b[j + 1] % 2) * 128 ELSE 0))]
Signed32(b) == (b[4] < 128 /\ \A j \in 5..8 : b[j] = 0) \/ (b[4] >= 128 /\ \A j \in 5..8 : b[j] = 255)

\* r: [ok, p (next position), out (values read)]
Fail(r) == [r EXCEPT !.ok = FALSE]
RECURSIVE VarLen(_, _, _)
VarLen(s, p, n) == IF p > Len(s) THEN 0 ELSE IF s[p] < 128 \/ n = 9 THEN n ELSE VarLen(s, p + 1, n + 1)
Digit(s, p, n, g) == IF g >= n THEN 0 ELSE IF g = 8 THEN s[p + 8] ELSE s[p + g] % 128
ReadVar(s, p) == LET n == VarLen(s, p, 1) IN
  IF n = 0 THEN [ok |-> FALSE, p |-> p, v |-> Zero]
  ELSE [ok |-> TRUE, p |-> p + n,
        v |-> [j \in 1..8 |-> LET g == (8 * (j - 1)) \div 7
                                  k == (8 * (j - 1)) % 7
                              IN (Digit(s, p, n, g) \div Pow2[k + 1] + Digit(s, p, n, g + 1) * Pow2[8 - k]) % 256]]

\* types: u any number, u63, u31, z, z32 signed, s string, b byte, f4, f8 fixed length and not negative
Read(s, t, r) ==
  IF ~r.ok THEN r
  ELSE CASE t \in {"u", "u63", "u31", "z", "z32"} ->
              LET x == ReadVar(s, r.p)
                  v == IF t \in {"z", "z32"} THEN UnZigZag(x.v) ELSE x.v
              IN IF ~x.ok \/ (t = "u63" /\ ~Fits63(v)) \/ (t = "u31" /\ ~Fits31(v)) \/ (t = "z32" /\ ~Signed32(v)) THEN Fail(r)
                 ELSE [r EXCEPT !.p = x.p, !.out = Append(@, v)]
         [] t = "s" ->
              LET x == ReadVar(s, r.p) IN
              IF ~x.ok \/ ~Fits31(x.v) THEN Fail(r)
              ELSE IF Val(x.v) > Len(s) - x.p + 1 THEN Fail(r)
              ELSE [r EXCEPT !.p = x.p + Val(x.v), !.out = Append(@, SubSeq(s, x.p, x.p + Val(x.v) - 1))]
         [] t = "b" -> IF r.p > Len(s) THEN Fail(r) ELSE [r EXCEPT !.p = @ + 1, !.out = Append(@, s[r.p])]
         [] t \in {"f4", "f8"} ->
              LET n == IF t = "f4" THEN 4 ELSE 8 IN
              IF r.p + n - 1 > Len(s) \/ s[r.p + n - 1] >= 128 THEN Fail(r)
              ELSE [r EXCEPT !.p = @ + n, !.out = Append(@, [j \in 1..8 |-> IF j <= n THEN s[r.p + j - 1] ELSE 0])]
RECURSIVE Reads(_, _, _)
Reads(s, ts, r) == IF ts = <<>> THEN r ELSE Reads(s, Tail(ts), Read(s, Head(ts), r))

Put(t, v) == CASE t \in {"u", "u63", "u31"} -> Var(v)
               [] t \in {"z", "z32"} -> Var(ZigZag(v))
               [] t = "s" -> Var(Small(Len(v))) \o v
               [] t = "b" -> <<v>>
               [] t = "f4" -> SubSeq(v, 1, 4)
               [] t = "f8" -> v
RECURSIVE Puts(_, _)
Puts(ts, f) == IF ts = <<>> THEN <<>> ELSE Put(Head(ts), Head(f)) \o Puts(Tail(ts), Tail(f))

\* ------------------------------------------------------------ messages
\* versions from which parts exist
SETTINGS_FLAG == 12
HEADER_FLAG == 13
CHECKPOINT_OFFSET == 16
CHECKPOINT_SEQ_ID == 21
VARINT_CHANGE == 27
TooLarge == 2
TooSmall == 3

Rep(n, x) == [k \in 1..n |-> x]
RECURSIVE Flat(_)
Flat(l) == IF l = <<>> THEN <<>> ELSE Head(l) \o Flat(Tail(l))

LogTypes == [HEADER |-> 0, CREATE |-> 1, BLOCK |-> 2, INVAL |-> 3, RESIZE |-> 4, DIRINVAL |-> 5]
LogFields == [HEADER |-> <<"u63", "u31", "s", "s", "u63">>, CREATE |-> <<"u63", "s", "u63", "u63">>, BLOCK |-> <<"u63", "u63", "u63", "u63">>,
              INVAL |-> <<"u63", "u63">>, RESIZE |-> <<"u63", "u63", "u63">>, DIRINVAL |-> <<"u63">>]

CpTypes(v) == <<"u31", "u63">> \o (IF v >= CHECKPOINT_OFFSET THEN <<"u63">> ELSE <<>>) \o (IF v >= CHECKPOINT_SEQ_ID THEN <<"u", "u63">> ELSE <<>>)
\* fields of a checkpoint: port, blocks, received bytes, seq id, offset
CpKnown(v, cp) == SubSeq(cp, 1, Len(CpTypes(v)))
CpFull(v, cp) == IF Len(cp) = 5 THEN cp ELSE IF Len(cp) = 3 THEN cp \o <<Zero, Zero>> ELSE cp \o <<Zero, Zero, Zero>>

\* the fields a version does not know are not sent
Enc(kind, v, f) ==
  CASE kind = "u" -> Var(f[1])
    [] kind = "i" -> Var(ZigZag(f[1]))
    [] kind = "i32" -> Var(ZigZag(f[1]))
    [] kind = "str" -> Put("s", f[1])
    [] kind = "version" -> Var(f[1])
    \* version, timeouts, id, flags
    [] kind = "settings" -> Puts(<<"u31", "u31", "u31", "s">>, SubSeq(f, 1, 4)) \o (IF v >= SETTINGS_FLAG THEN <<f[5]>> ELSE <<>>)
    \* name, seq id, block size, offset, file size, status, previous seq id
    [] kind = "header" -> Puts(<<"s", "u63", "u63", "u63", "u63">>, SubSeq(f, 1, 5)) \o
                          (IF v >= HEADER_FLAG THEN <<f[6]>> \o (IF f[6] \in {TooLarge, TooSmall} THEN Var(f[7]) ELSE <<>>) ELSE <<>>)
    [] kind = "checkpoints" -> Var(Small(Len(f))) \o Flat([k \in 1..Len(f) |-> Puts(CpTypes(v), CpKnown(v, f[k]))])
    [] kind = "done" -> Var(f[1]) \o (IF v >= CHECKPOINT_OFFSET THEN Var(f[2]) ELSE <<>>)
    [] kind = "size" -> Var(f[1])
    \* version, error, blocks
    [] kind = "abort" -> Puts(<<"f4", "b", "f8">>, f)
    [] kind = "chunks" -> Puts(<<"f8", "f8">>, f)
    \* seq id, name, size, list of <<start, end>>
    [] kind = "file" -> Puts(<<"u63", "s", "u63">>, SubSeq(f, 1, 3)) \o Var(Small(Len(f[4]))) \o
                        Flat([k \in 1..Len(f[4]) |-> Var(f[4][k][1]) \o Var(f[4][k][2])])
    [] kind = "encryption" -> Puts(<<"u63", "s", "f4">>, f)
    [] kind = "footer" -> Var(ZigZag(f[1]))
    [] kind \in DOMAIN LogFields -> LET b == <<LogTypes[kind]>> \o Puts(LogFields[kind], f) IN <<Len(b) % 256, Len(b) \div 256>> \o b

R0(p) == [ok |-> TRUE, p |-> p, out |-> <<>>]
Plain(s, p, ts) == Reads(s, ts, R0(p))
More(r, x) == [r EXCEPT !.ok = x.ok, !.p = x.p, !.out = @ \o x.out]

RECURSIVE DecCps(_, _, _, _, _)
DecCps(s, v, n, p, acc) ==
  IF n = Zero THEN [ok |-> TRUE, p |-> p, out |-> acc]
  ELSE LET a == Plain(s, p, SubSeq(CpTypes(v), 1, IF Len(CpTypes(v)) = 5 THEN 4 ELSE Len(CpTypes(v))))
           \* -1 of old versions: ten bytes, of which the ninth ends the number here
           old == a.ok /\ v >= CHECKPOINT_SEQ_ID /\ v < VARINT_CHANGE /\ a.out[4] = Ones /\ a.p <= Len(s)
           b == IF ~a.ok \/ v < CHECKPOINT_SEQ_ID THEN a
                ELSE IF old THEN (IF s[a.p] # 1 THEN Fail(a) ELSE Read(s, "u63", [a EXCEPT !.p = @ + 1]))
                ELSE Read(s, "u63", a)
           first == CHOOSE k \in 1..8 : n[k] # 0 /\ \A j \in 1..k - 1 : n[j] = 0
           less == [k \in 1..8 |-> IF k < first THEN 255 ELSE IF k = first THEN n[k] - 1 ELSE n[k]]
       IN IF ~b.ok THEN [b EXCEPT !.out = acc] ELSE DecCps(s, v, less, b.p, Append(acc, CpFull(v, b.out)))

RECURSIVE DecIv(_, _, _, _)
DecIv(s, n, p, acc) == IF n = 0 THEN [ok |-> TRUE, p |-> p, out |-> acc]
                       ELSE LET x == Plain(s, p, <<"u63", "u63">>) IN
                            IF ~x.ok THEN x ELSE IF ~LeqTop(x.out[1], x.out[2]) THEN Fail(x) ELSE DecIv(s, n - 1, x.p, Append(acc, x.out))
DecFile(s, p) == LET x == Plain(s, p, <<"u63", "s", "u63", "u63">>) IN
  IF ~x.ok THEN x
  ELSE IF ~Fits31(x.out[4]) \/ Val(x.out[4]) > Len(s) THEN Fail(x)  \* more than there are bytes
  ELSE LET y == DecIv(s, Val(x.out[4]), x.p, <<>>) IN
       IF ~y.ok THEN Fail(x) ELSE [ok |-> TRUE, p |-> y.p, out |-> <<x.out[1], x.out[2], x.out[3], y.out>>]
RECURSIVE DecFiles(_, _, _)
DecFiles(s, p, acc) == IF p > Len(s) THEN [ok |-> TRUE, p |-> p, out |-> acc]
                       ELSE LET x == DecFile(s, p) IN IF ~x.ok THEN x ELSE DecFiles(s, x.p, Append(acc, x.out))

\* reads a message from position p of s
Dec(kind, v, s, p) ==
  CASE kind = "u" -> Plain(s, p, <<"u">>)
    [] kind = "i" -> Plain(s, p, <<"z">>)
    [] kind \in {"i32", "footer"} -> Plain(s, p, <<"z32">>)
    [] kind = "str" -> Plain(s, p, <<"s">>)
    [] kind = "version" -> Plain(s, p, <<"u31">>)
    [] kind = "settings" -> LET x == Plain(s, p, <<"u31", "u31", "s">>) IN
         IF ~x.ok THEN x ELSE IF v >= SETTINGS_FLAG THEN LET y == Read(s, "b", x) IN IF ~y.ok THEN y ELSE [y EXCEPT !.out[4] = @ % 16]
         ELSE [x EXCEPT !.out = Append(@, 0)]
    [] kind = "header" -> LET x == Plain(s, p, <<"s", "u63", "u63", "u63", "u63">>) IN
         IF ~x.ok \/ v < HEADER_FLAG THEN [x EXCEPT !.out = @ \o <<0, Zero>>]
         ELSE LET y == Read(s, "b", x) IN
              IF ~y.ok THEN y
              ELSE LET st == y.out[6] % 8
                       z == [y EXCEPT !.out[6] = st]
                   IN IF st \in {TooLarge, TooSmall} THEN Read(s, "u63", z) ELSE [z EXCEPT !.out = Append(@, Zero)]
    [] kind = "checkpoints" -> LET n == ReadVar(s, p) IN IF ~n.ok THEN Fail(R0(p)) ELSE DecCps(s, v, n.v, n.p, <<>>)
    [] kind = "done" -> IF v >= CHECKPOINT_OFFSET THEN Plain(s, p, <<"u63", "u63">>)
                        ELSE LET x == Plain(s, p, <<"u63">>) IN [x EXCEPT !.out = Append(@, Zero)]
    [] kind = "size" -> Plain(s, p, <<"u63">>)
    [] kind = "abort" -> Plain(s, p, <<"f4", "b", "f8">>)
    [] kind = "chunks" -> Plain(s, p, <<"f8", "f8">>)
    [] kind = "file" -> DecFile(s, p)
    [] kind = "files" -> DecFiles(s, p, <<>>)
    [] kind = "encryption" -> LET x == Plain(s, p, <<"u63", "s", "f4">>) IN IF x.ok /\ ~(Fits31(x.out[1]) /\ Val(x.out[1]) <= 2) THEN Fail(x) ELSE x
    \* the length and type of an entry are read before; nothing may be left over
    [] kind \in DOMAIN LogFields -> LET x == Plain(s, p, LogFields[kind]) IN IF x.ok /\ x.p = Len(s) + 1 THEN x ELSE Fail(x)

\* ------------------------------------------------------------ what the code did
\* encode into a buffer of r.max bytes of which r.off are used
OkEnc(r) == LET b == Enc(r.kind, r.v, r.f)
                fits == r.off + Len(b) <= r.max
            IN /\ r.ok = fits
               /\ fits => r.out = b /\ r.to = r.off + Len(b)
               /\ r.clean
\* a log entry has the time in it, which only has to lie in the time of the call
OkLogEnc(r) == /\ r.ok = (r.fits = 1)
               /\ r.ok => /\ Len(r.out) >= 3
                          /\ LET x == Plain(r.out, 4, LogFields[r.kind]) IN
                             /\ x.ok /\ x.p = Len(r.out) + 1
                             /\ Enc(r.kind, 0, x.out) = r.out
                             /\ Tail(x.out) = r.f
                             /\ LeqTop(r.t0, x.out[1]) /\ LeqTop(x.out[1], r.t1)
               /\ r.clean
OkDec(r) == LET s == SubSeq(r.src, 1, r.max)
                x == Dec(r.kind, r.v, s, r.off + 1)
            IN /\ r.ok = x.ok
               /\ r.ok => r.f = x.out /\ r.to = x.p - 1
\* a list of files cut into buffers: what is sent of it is a part of it, in order, and if possible not nothing
Prefix(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
OkList(r) == LET x == DecFiles(r.out, r.off + 1, <<>>)
                 n == Len(x.out)
                 left == Len(r.f) - r.start
             IN /\ x.ok /\ r.to = Len(r.out) /\ r.to <= r.max /\ r.clean
                /\ n = r.n /\ n <= left
                /\ (left > 0 /\ r.room) => n > 0
                /\ \A k \in 1..n : LET a == x.out[k]
                                       b == r.f[r.start + k]
                                   IN /\ SubSeq(a, 1, 3) = SubSeq(b, 1, 3) /\ Prefix(a[4], b[4])
                                      \* shortened only if it does not fit even alone
                                      /\ a[4] = b[4] \/ r.off + 32 + Len(b[2]) + 20 * Len(b[4]) > r.max

\* ------------------------------------------------------------ constants on the wire
Constants == [DONE |-> 68, FILE |-> 76, WAIT |-> 87, ERR |-> 69, SETTINGS |-> 83, ABORT |-> 65, CHUNKS |-> 67, ACK |-> 97, SIZE |-> 90, FOOTER |-> 70,
              LOCAL_CHECKPOINT |-> 1, ENCRYPTION |-> 101, HEART_BEAT |-> 72, chunksLen |-> 16, abortLen |-> 13, encryptionLen |-> 23,
              V_PROGRESS |-> 11, V_CHECKSUM |-> 12, V_RESUME |-> 13, V_SETTINGS_FLAG |-> 12, V_HEADER_FLAG |-> 13, V_CP_OFFSET |-> 16, V_CP_SEQ |-> 21,
              V_ENC |-> 23, V_TAGS |-> 25, V_DELETE |-> 26, V_VARINT |-> 27, V_HEARTBEAT |-> 29, V_IV |-> 30,
              L_HEADER |-> 0, L_CREATE |-> 1, L_BLOCK |-> 2, L_INVAL |-> 3, L_RESIZE |-> 4, L_DIRINVAL |-> 5, L_VERSION |-> 2,
              S_NOT_EXISTS |-> 0, S_CORRECT |-> 1, S_LARGE |-> 2, S_SMALL |-> 3, S_DELETE |-> 4, F_NONE |-> 0, F_CHECKSUM |-> 1, F_TAG |-> 2,
              E_NONE |-> 0, E_CTR |-> 1, E_GCM |-> 2]
\* bytes a receiver thread's checkpoint takes on the wire
MaxLocal(v) == 30 + (IF v >= CHECKPOINT_OFFSET THEN 10 ELSE 0) + (IF v >= CHECKPOINT_SEQ_ID THEN 20 ELSE 0)

Ok(r) == CASE r.op = "enc" -> OkEnc(r)
           [] r.op = "logenc" -> OkLogEnc(r)
           [] r.op = "dec" -> OkDec(r)
           [] r.op = "list" -> OkList(r)
           [] r.op = "const" -> \A x \in DOMAIN r.c : x \in DOMAIN Constants /\ Constants[x] = r.c[x]
           [] r.op = "maxlocal" -> r.n = MaxLocal(r.v)
           [] OTHER -> FALSE
=============================================================================
