--------------------------------- MODULE UriMC ---------------------------------
(* Enumerates URLs as sequences of pieces, and small requests; checks that what *)
(* Generate writes is read back.                                                *)
EXTENDS Uri, Json
CONSTANTS MaxTok, Emit
Toks == {"h", "[", "]", ":", "7", "?", "&", "=", "num_ports=2", "id=", "%", "41", "ports=", ","}
VARIABLES toks, f
vars == <<toks, f>>
Hosts == {<<>>, B("h"), B("1.2.3.4"), B("a:b")}
PortLs == {<<>>, <<B("5")>>, <<B("5"), B("6")>>, <<B("5"), B("7")>>, <<B("0")>>, <<B("0"), B("0")>>}
Strs == {<<>>, B("x"), <<Pct, 0, 255>>, B("a&b=c?d")}
None == [ok |-> FALSE]
Init == toks = <<>> /\ f = None
Grow == f = None /\ Len(toks) < MaxTok /\ \E t \in Toks : toks' = Append(toks, t) /\ UNCHANGED f
Pick == toks = <<>> /\ f = None /\ UNCHANGED toks
        /\ \E h \in Hosts, p \in PortLs, i \in Strs, n \in Strs, d \in {<<>>, B("y")}, pv \in {B("32"), M64, <<Minus>> \o M64N}, t \in BOOLEAN, e \in {<<>>, <<0, 171>>} :
             f' = [ok |-> TRUE, host |-> h, id |-> i, ns |-> n, dst |-> d, dir |-> <<>>, pv |-> pv, iv |-> B("0"), tls |-> t, dr |-> ~t,
                   et |-> IF e = <<>> THEN 0 ELSE 2, key |-> e, ports |-> p]
Next == Grow \/ Pick
Spec == Init /\ [][Next]_vars
Back == f.ok => LET r == Request(Generate(f), B("32")) IN
                (Carryable(f) => r.ok) /\ (r.ok => Same(r, f))
Show == Emit /\ f = None => PrintT(<<"CASE", ToJson(toks)>>)
================================================================================
