---------------------------------- MODULE Uri ----------------------------------
(* Connection URLs: wdt://host[:port][?key=value&...].  A string is the         *)
(* sequence of its bytes; a number is the byte sequence of its decimal form, so *)
(* that 64-bit values are exact.  Parse is the grammar of a URL; Request is the *)
(* transfer request a URL stands for, or an error, and nothing in between.      *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Alpha == "0123456789abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ,:._+-/?=&%[]"
Codes == [i \in 1..10 |-> 47 + i] \o [i \in 1..26 |-> 96 + i] \o [i \in 1..26 |-> 64 + i]
         \o <<44, 58, 46, 95, 43, 45, 47, 63, 61, 38, 37, 91, 93>>
Ord == [c \in {SubSeq(Alpha, i, i) : i \in 1..Len(Alpha)} |-> Codes[CHOOSE i \in 1..Len(Alpha) : SubSeq(Alpha, i, i) = c]]
B(str) == [i \in 1..Len(str) |-> Ord[SubSeq(str, i, i)]]
Colon == 58
Ques == 63
Amp == 38
Eq == 61
Pct == 37
LBr == 91
RBr == 93
Comma == 44
Minus == 45

Idx(s, set, from) == LET I == {i \in from..Len(s) : s[i] \in set} IN
                     IF I = {} THEN Len(s) + 1 ELSE CHOOSE i \in I : \A j \in I : i <= j
From(s, i) == SubSeq(s, i, Len(s))
RECURSIVE Split(_, _)
Split(s, ch) == LET i == Idx(s, {ch}, 1) IN
                IF i > Len(s) THEN <<s>> ELSE <<SubSeq(s, 1, i - 1)>> \o Split(From(s, i + 1), ch)
Contains(s, t) == \E i \in 0..(Len(s) - Len(t)) : SubSeq(s, i + 1, i + Len(t)) = t

----------------------------------------------------------------------------
(* Escaping: values are any bytes. *)
Safe == (48..57) \cup (65..90) \cup (97..122) \cup {44, 58, 46, 95, 43, 45}
HexDigit(v) == IF v <= 9 THEN 48 + v ELSE 87 + v
FromHex(c) == IF c \in 48..57 THEN c - 48 ELSE IF c \in 97..102 THEN c - 87 ELSE -1
RECURSIVE Escape(_)
Escape(s) == IF s = <<>> THEN <<>>
             ELSE (IF s[1] \in Safe THEN <<s[1]>> ELSE <<Pct, HexDigit(s[1] \div 16), HexDigit(s[1] % 16)>>) \o Escape(Tail(s))
(* an escaped value is well formed, or it is not *)
RECURSIVE Unescape(_)
Unescape(s) ==
  IF s = <<>> THEN [ok |-> TRUE, v |-> <<>>]
  ELSE IF s[1] /= Pct THEN LET r == Unescape(Tail(s)) IN [ok |-> r.ok, v |-> <<s[1]>> \o r.v]
  ELSE IF Len(s) < 3 \/ FromHex(s[2]) < 0 \/ FromHex(s[3]) < 0 THEN [ok |-> FALSE, v |-> <<>>]
  ELSE LET r == Unescape(From(s, 4)) IN [ok |-> r.ok, v |-> <<16 * FromHex(s[2]) + FromHex(s[3])>> \o r.v]

(* Numbers. *)
RECURSIVE Strip(_)
Strip(d) == IF Len(d) > 1 /\ d[1] = 48 THEN Strip(Tail(d)) ELSE d
Digits(d) == d /= <<>> /\ \A i \in 1..Len(d) : d[i] \in 48..57
LeqDec(a, b) == Len(a) < Len(b) \/ (Len(a) = Len(b) /\ (a = b \/
                LET i == CHOOSE k \in 1..Len(a) : a[k] /= b[k] /\ \A j \in 1..(k - 1) : a[j] = b[j] IN a[i] < b[i]))
M32 == B("2147483647")
M32N == B("2147483648")
M64 == B("9223372036854775807")
M64N == B("9223372036854775808")
Num(s, max, maxneg) ==   \* [ok, v] v in canonical form
  LET neg == s /= <<>> /\ s[1] = Minus
      d == IF neg THEN Tail(s) ELSE s
      c == Strip(d) IN
  IF ~Digits(d) \/ ~LeqDec(c, IF neg THEN maxneg ELSE max) THEN [ok |-> FALSE, v |-> <<>>]
  ELSE [ok |-> TRUE, v |-> IF neg /\ c /= <<48>> THEN <<Minus>> \o c ELSE c]
Num32(s) == Num(s, M32, M32N)
Num64(s) == Num(s, M64, M64N)
RECURSIVE DecOf(_)
DecOf(n) == IF n < 0 THEN <<Minus>> \o DecOf(-n) ELSE IF n < 10 THEN <<48 + n>> ELSE DecOf(n \div 10) \o <<48 + (n % 10)>>
RECURSIVE Nat32(_, _)
Nat32(d, a) == IF d = <<>> THEN a ELSE Nat32(Tail(d), 10 * a + (d[1] - 48))
IntOf(v) == IF v[1] = Minus THEN -Nat32(Tail(v), 0) ELSE Nat32(v, 0)
Positive(v) == v[1] /= Minus /\ v /= <<48>>
Lower(s) == [i \in 1..Len(s) |-> IF s[i] \in 65..90 THEN s[i] + 32 ELSE s[i]]
Truth(s) ==  \* [ok, v]
  LET l == Lower(s) IN
  CASE l \in {B("y"), B("yes"), B("t"), B("true"), B("on")} -> [ok |-> TRUE, v |-> TRUE]
    [] l \in {B("n"), B("no"), B("f"), B("false"), B("off")} -> [ok |-> TRUE, v |-> FALSE]
    [] Digits(l) /\ Strip(l) \in {<<48>>, <<49>>} -> [ok |-> TRUE, v |-> Strip(l) = <<49>>]
    [] OTHER -> [ok |-> FALSE, v |-> FALSE]

----------------------------------------------------------------------------
(* The parts of a URL.  params is the list of <<key, value>> in order. *)
Prefix == B("wdt://")
BadUri == [ok |-> FALSE, host |-> <<>>, port |-> B("-1"), params |-> <<>>]
Params(q) ==  \* q: what follows '?'
  LET ps == Split(q, Amp)
      n == IF ps[Len(ps)] = <<>> THEN Len(ps) - 1 ELSE Len(ps)   \* nothing after the last '&', or nothing at all
      one(p) == LET e == Idx(p, {Eq}, 1)
                    u == Unescape(From(p, e + 1)) IN
                [ok |-> e > 1 /\ Len(p) > 0 /\ u.ok, k |-> SubSeq(p, 1, e - 1), v |-> u.v]
      all == [i \in 1..n |-> one(ps[i])] IN
  [ok |-> \A i \in 1..n : all[i].ok, ps |-> [i \in 1..n |-> <<all[i].k, all[i].v>>]]
Parse(url) ==
  IF Len(url) <= 6 \/ SubSeq(url, 1, 6) /= Prefix THEN BadUri
  ELSE LET r == From(url, 7)
           br == r[1] = LBr
           he == IF br THEN Idx(r, {RBr}, 1) ELSE Idx(r, {Colon, Ques}, 1) IN
       IF br /\ he > Len(r) THEN BadUri
       ELSE LET host == IF br THEN SubSeq(r, 2, he - 1) ELSE SubSeq(r, 1, he - 1)
                rest == IF br THEN From(r, he + 1) ELSE From(r, he)
                hasport == rest /= <<>> /\ rest[1] = Colon
                pe == IF hasport THEN Idx(rest, {Ques}, 1) ELSE 1
                port == IF hasport THEN Num32(SubSeq(rest, 2, pe - 1)) ELSE [ok |-> TRUE, v |-> B("-1")]
                q == From(rest, pe) IN
            IF host = <<>> \/ ~port.ok \/ (q /= <<>> /\ q[1] /= Ques) THEN BadUri
            ELSE LET pr == IF q = <<>> THEN [ok |-> TRUE, ps |-> <<>>] ELSE Params(Tail(q)) IN
                 IF ~pr.ok THEN BadUri ELSE [ok |-> TRUE, host |-> host, port |-> port.v, params |-> pr.ps]
Get(u, k) == LET I == {i \in 1..Len(u.params) : u.params[i][1] = k} IN
             IF I = {} THEN <<>> ELSE u.params[CHOOSE i \in I : \A j \in I : j <= i][2]
Keys(u) == {u.params[i][1] : i \in 1..Len(u.params)}

----------------------------------------------------------------------------
(* The transfer request. *)
Fails == [ok |-> FALSE]
HexOf(s) == [i \in 1..(2 * Len(s)) |-> LET b == s[(i + 1) \div 2] IN HexDigit(IF i % 2 = 1 THEN b \div 16 ELSE b % 16)]
Enc(s) ==   \* "type:hex"
  LET i == Idx(s, {Colon}, 1)
      t == SubSeq(s, 1, i - 1)
      h == From(s, i + 1)
      tv == {k \in 1..Len(t) : FromHex(t[k]) < 0}
      st == Strip(t) IN
  IF i > Len(s) \/ t = <<>> \/ tv /= {} \/ st \notin {<<49>>, <<50>>} \/ h = <<>> \/ Len(h) % 2 = 1 \/ \E k \in 1..Len(h) : FromHex(h[k]) < 0
  THEN Fails
  ELSE [ok |-> TRUE, type |-> st[1] - 48, key |-> [k \in 1..(Len(h) \div 2) |-> 16 * FromHex(h[2 * k - 1]) + FromHex(h[2 * k])]]
NoEnc == [ok |-> TRUE, type |-> 0, key |-> <<>>]
Opt(s, dflt, f(_)) == IF s = <<>> THEN [ok |-> TRUE, v |-> dflt] ELSE f(s)
PortList(s) == LET ps == SelectSeq(Split(s, Comma), LAMBDA p : p /= <<>>) IN [i \in 1..Len(ps) |-> Num32(ps[i])]
Request(url, version) ==
  LET u == Parse(url) IN
  IF ~u.ok THEN Fails
  ELSE LET es == Get(u, B("Enc"))
           enc == IF es = <<>> THEN NoEnc ELSE Enc(es)
           tls == Opt(Get(u, B("tls")), FALSE, Truth)
           dr == Opt(Get(u, B("dr")), FALSE, Truth)
           pv == Opt(Get(u, B("recpv")), version, Num64)
           iv == Opt(Get(u, B("iv_change_int")), <<48>>, Num64)
           pl == PortList(Get(u, B("ports")))
           sp == IF Positive(u.port) THEN [ok |-> TRUE, v |-> u.port] ELSE Num32(Get(u, B("start_port")))
           np == Num32(Get(u, B("num_ports"))) IN
       IF ~(enc.ok /\ tls.ok /\ dr.ok /\ pv.ok /\ iv.ok) THEN Fails
       ELSE IF (\E i \in 1..Len(pl) : ~pl[i].ok) \/ (pl = <<>> /\ ~(sp.ok /\ np.ok)) THEN Fails
       ELSE [ok |-> TRUE, host |-> u.host, id |-> Get(u, B("id")), ns |-> Get(u, B("ns")), dst |-> Get(u, B("dstid")),
             dir |-> Get(u, B("dir")), pv |-> pv.v, iv |-> iv.v, tls |-> tls.v, dr |-> dr.v, et |-> enc.type, key |-> enc.key,
             ports |-> IF pl /= <<>> THEN [i \in 1..Len(pl) |-> pl[i].v]
                       ELSE [i \in 1..IntOf(np.v) |-> DecOf(IntOf(sp.v) + i - 1)]]

(* What the URL of a request must carry: everything but the directory, which    *)
(* each end has its own.                                                        *)
Carried(f) == [f EXCEPT !.dir = <<>>]
(* Requests of which a URL can say nothing: no host or no ports.                *)
PortsOk(ps) == ps /= <<>> /\ \A i \in 1..Len(ps) : Positive(ps[i])
Carryable(f) == f.host /= <<>> /\ (\A i \in 1..Len(f.host) : f.host[i] \notin {LBr, RBr, Ques}) /\ PortsOk(f.ports)

(* One way to write the URL; the real one may order or shape it otherwise. *)
RECURSIVE Join(_, _)
Join(ss, ch) == IF Len(ss) = 0 THEN <<>> ELSE IF Len(ss) = 1 THEN ss[1] ELSE ss[1] \o <<ch>> \o Join(Tail(ss), ch)
Generate(f) ==
  LET h == IF \E i \in 1..Len(f.host) : f.host[i] = Colon THEN <<LBr>> \o f.host \o <<RBr>> ELSE f.host
      kv(k, v) == IF v = <<>> THEN <<>> ELSE << k \o <<Eq>> \o Escape(v) >>
      ps == kv(B("ports"), Join(f.ports, Comma)) \o kv(B("id"), f.id) \o kv(B("ns"), f.ns) \o kv(B("dstid"), f.dst)
            \o kv(B("recpv"), f.pv) \o kv(B("iv_change_int"), f.iv) \o kv(B("dr"), IF f.dr THEN B("1") ELSE <<>>)
            \o kv(B("Enc"), IF f.et = 0 THEN <<>> ELSE <<48 + f.et, Colon>> \o HexOf(f.key)) \o kv(B("tls"), IF f.tls THEN B("1") ELSE B("0"))
  IN Prefix \o h \o <<Ques>> \o Join(ps, Amp)

----------------------------------------------------------------------------
(* Records of the real code. *)
Same(got, want) == got.ok = want.ok /\ (want.ok => \A k \in DOMAIN want : got[k] = want[k])
(* a secret of a few bytes may show up by chance in a digest *)
Leaks(text, key) == Len(key) >= 8 /\ (Contains(text, HexOf(key)) \/ Contains(text, key) \/ Contains(text, Escape(key))
                    \/ Contains(text, SubSeq(HexOf(key), 1, Len(key))) \/ Contains(text, SubSeq(HexOf(key), Len(key) + 1, 2 * Len(key))))
Ok(r) ==
  CASE r.k = "uri" ->
         LET u == Parse(r.url) IN
         /\ r.got.ok = u.ok
         /\ u.ok => /\ r.got.host = u.host
                    /\ r.got.port = u.port
                    /\ {r.got.params[i][1] : i \in 1..Len(r.got.params)} = Keys(u)
                    /\ Len(r.got.params) = Cardinality(Keys(u))
                    /\ \A i \in 1..Len(r.got.params) : r.got.params[i][2] = Get(u, r.got.params[i][1])
    [] r.k = "req" -> Same(r.got, Request(r.url, r.version))
    [] r.k = "gen" ->
         LET back == Request(r.url, r.version) IN
         /\ ~r.bad /\ Carryable(r.f) => back.ok /\ r.got.ok
         /\ back.ok => ~r.bad /\ Same(back, Carried(r.f))
         /\ r.got.ok => ~r.bad /\ Same(r.got, Carried(r.f))
         /\ ~Leaks(r.log, r.f.key)
         /\ ~Leaks(r.put, r.f.key)
    [] r.k = "esc" ->
         /\ LET u == Unescape(r.e) IN u.ok /\ u.v = r.s
         /\ \A i \in 1..Len(r.e) : r.e[i] \in Safe \cup {Pct}
    [] r.k = "unesc" ->
         LET u == Unescape(r.e) IN r.ok = u.ok /\ (u.ok => r.s = u.v)
    [] OTHER -> FALSE
================================================================================
