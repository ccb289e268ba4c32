---------------------------- MODULE SendQueueMC ----------------------------
(* One caller at a time over SendQueue: exhaustive to a depth (the log left
   out of the fingerprint), and as a generator of long random programs whose
   answers by the real code are then validated by SendQueueTrace. *)
EXTENDS SendQueue, TLC, Json

CONSTANTS Configs, MaxLevel, NoSeq   \* NoSeq: also checkpoints of old receivers, without sequence numbers

VARIABLES c, s, log, conf

vars == <<c, s, log, conf>>
View == <<c, s, conf>>

Ps == 0..(c.np - 1)
Units(b) == {<<b.n, u>> : u \in b.off..(b.off + b.size - 1)}
HistBlocks(p) == {s.hist[p].list[k] : k \in 1..Len(s.hist[p].list)}
Held == UNION {{s.held[p][k] : k \in 1..Len(s.held[p])} : p \in Ps}
Out == UNION {Units(b) : b \in s.q \cup Held \cup UNION {HistBlocks(p) : p \in Ps}}
RECURSIVE Total(_)
Total(S) == IF S = {} THEN 0 ELSE LET b == CHOOSE b \in S : TRUE IN b.size + Total(S \ {b})
RECURSIVE SeqTotal(_)
SeqTotal(l) == IF l = <<>> THEN 0 ELSE Head(l).size + SeqTotal(Tail(l))
RECURSIVE PortTotal(_)
PortTotal(x) == IF x = c.np THEN 0
                ELSE SeqTotal(s.held[x]) + SeqTotal(s.hist[x].list) + PortTotal(x + 1)
OutCount == Total(s.q) + PortTotal(0)

Init == /\ c \in Configs
        /\ s = SQS0(c)
        /\ log = <<>>
        /\ conf = {}

Dequeued == \E p \in Ps : s.held[p] # <<>> \/ s.hist[p].list # <<>> \/ s.hist[p].last # <<>>

\* the block a checkpoint with nb confirmed blocks is about
About(p, nb) == IF nb < Len(s.hist[p].list) THEN <<s.hist[p].list[nb + 1]>>
                ELSE IF nb = Len(s.hist[p].list) THEN s.held[p] ELSE <<>>

CkOps(p, name) ==
  UNION {LET b == About(p, nb)
             plain == {<<name, p, nb, 0, 0, 0, 1>>}
         IN IF b = <<>> THEN plain
            ELSE plain
                 \cup {<<name, p, nb, b[1].seq, b[1].off, r, 1>> : r \in {1, b[1].size} \cap 1..b[1].size}
                 \cup {<<name, p, nb, b[1].seq, b[1].off + 77, r, 1>> : r \in {1} \cap 1..b[1].size}
                 \cup (IF NoSeq THEN {<<name, p, nb, 0, 0, r, 0>> : r \in {1} \cap 1..b[1].size} ELSE {})
         : nb \in 0..(Len(s.hist[p].list) + 1)}

Ops == (IF ~s.called THEN {<<"build", 0>>} ELSE {})
       \cup (IF ~s.prevd /\ ~Dequeued /\ c.prevOn THEN {<<"prev", 0>>} ELSE {})
       \cup UNION {
         (IF s.held[p] = <<>> /\ (s.q # {} \/ s.init) /\ (s.prevd \/ ~c.prevOn) THEN {<<"get", p>>} ELSE {})
         \cup (IF s.held[p] # <<>> THEN (IF s.hist[p].glob THEN {} ELSE {<<"back", p>>}) \cup {<<"add", p, "ok">>, <<"add", p, "err">>} ELSE {})
         \cup (IF s.init /\ ~s.hist[p].glob THEN CkOps(p, "loc") ELSE {})
         \cup (IF s.init /\ s.held[p] = <<>> THEN {<<"unacked", p>>} ELSE {})
         \cup (IF s.init /\ ~s.hist[p].inuse /\ ~s.hist[p].glob THEN CkOps(p, "glob") ELSE {})
         \cup (IF s.hist[p].inuse /\ s.init THEN {<<"leave", p>>} ELSE {})
         : p \in Ps}
       \cup (IF s.init /\ \A p \in Ps : s.held[p] = <<>> THEN {<<"mismatch", 0>>} ELSE {})

\* the whole operation, for a single caller
RECURSIVE Run(_, _, _)
Run(cc, st, op) ==
  LET O == SQStep(cc, st, 0, op) IN
  IF O = {} THEN {} ELSE UNION {IF "r" \in DOMAIN o THEN {o} ELSE Run(cc, o.s, o.op) : o \in O}

Confirmed(op) ==
  IF op[1] \notin {"loc", "glob"} THEN {}
  ELSE LET b == About(op[2], op[3])
       IN IF op[6] = 0 \/ b = <<>> \/ Verdict(s.hist[op[2]], Ck(op), op[1] = "glob") = "INVALID_CHECKPOINT" THEN {}
          ELSE IF op[7] = 1 /\ (op[5] # b[1].off \/ op[4] # b[1].seq) THEN {}
          ELSE IF op[1] = "loc" /\ op[3] >= Len(s.hist[op[2]].list) THEN {} \* held: a local one does not reach it
          ELSE {<<b[1].n, u>> : u \in b[1].off..(b[1].off + op[6] - 1)}

Next == \E op \in Ops :
          \E o \in Run(c, s, op) :
            /\ s' = o.s
            /\ conf' = conf \cup Confirmed(op)
            /\ log' = Append(log, op)
            /\ UNCHANGED c

Spec == Init /\ [][Next]_vars
Bound == TLCGet("level") < MaxLevel

\* ------------------------------------------------------------- invariants
\* no unit of a file is outstanding twice
NoDuplicate == OutCount = Cardinality(Out)
\* a unit is given up only because a checkpoint declared it received, and a
\* declared one is not sent again (once the block in flight has come back)
InPrev(n, u) == s.prevd /\ \E k \in 1..Len(c.prev) :
                   c.prev[k].n = n /\ c.prev[k].size <= c.files[n].size
                   /\ \E x \in 1..Len(c.prev[k].ch) : c.prev[k].ch[x][1] <= u /\ u < c.prev[k].ch[x][2]
Everything == UNION {{<<n, u>> : u \in {u \in 0..(c.files[n].size - 1) : ~InPrev(n, u)}}
                     : n \in {s.added[k] : k \in {k \in 1..Len(s.added) : c.files[s.added[k]].ok}}}
OutOk == {x \in Out : c.files[x[1]].ok}
Conservation == Everything = OutOk \cup conf
Lost == (conf \cap OutOk) \subseteq UNION {Units(b) : b \in Held}
\* an empty file is one block until it is confirmed; deletions likewise: never more than one outstanding
Empties == \A n \in 1..Len(c.files) :
             c.files[n].size = 0 => Cardinality({b \in s.q \cup Held : b.n = n /\ ~b.del}) <= 1
\* accounting: effective bytes are those of blocks confirmed or still believed sent
Ledger == \A p \in Ps : s.hist[p].hdr = HDR * Len(s.hist[p].list)
                        \/ \E b \in HistBlocks(p) : b.err
PrintCase == TLCGet("level") = MaxLevel => PrintT(<<"CASE", ToJson([cfg |-> c, log |-> log])>>)
=============================================================================
