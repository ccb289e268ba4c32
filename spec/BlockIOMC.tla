---- MODULE BlockIOMC ----
(* The reader of FileByteSource and the writer of FileWriter as state machines
   over every answer the system calls may give, with a disk block of K units.
   Each behaviour ends in a record that BlockIO must allow, and is printed as a
   case for the real code (K units = one real disk block of 4096 bytes). *)
EXTENDS BlockIO, TLC, Json, FiniteSets

CONSTANTS K, Lens, Offs, Sizes, Bufs, MaxShort, MaxFlt, WBlocks, Emit

Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b
Up(x) == ((x + K - 1) \div K) * K

VARIABLES st, par, off, size, got, passes, chunks, reps, nshort, flt, short, pos
vars == <<st, par, off, size, got, passes, chunks, reps, nshort, flt, short, pos>>

Init == /\ st = "pick" /\ par = [flen |-> 0] /\ off = 0 /\ size = 0 /\ got = 0 /\ passes = <<>>
        /\ chunks = <<>> /\ reps = <<>> /\ nshort = 0 /\ flt = FALSE /\ short = FALSE /\ pos = 0

Pick == /\ st = "pick"
        /\ \E l \in Lens, o \in Offs, s \in Sizes, b \in Bufs, d \in BOOLEAN, own \in BOOLEAN :
             /\ (l < o + s => l + K >= o)  \* a file that shrank, not too much
             /\ par' = [flen |-> l, off |-> o, size |-> s, buf |-> b, direct |-> d, own |-> own]
             /\ off' = o /\ size' = s
        /\ st' = "read"
        /\ UNCHANGED <<got, passes, chunks, reps, nshort, flt, short, pos>>

Pass(e) == Append(passes, [off |-> off, size |-> size, chunks |-> chunks, end |-> e, flt |-> flt, short |-> short])

\* one read(): what FileByteSource asks for and every answer it may get
Rem == IF par.direct THEN (off + got) % K ELSE 0
Logical == Min(par.buf - Rem, size - got)
Physical == IF par.direct THEN Up(Logical + Rem) ELSE Logical
Avail == Max(0, Min(Physical, par.flen - (off + got - Rem)))

Fail(sh, fl) == /\ st' = "done"
                /\ passes' = Append(passes, [off |-> off, size |-> size, chunks |-> chunks, end |-> "err",
                                             flt |-> fl, short |-> sh])
Read ==
  /\ st = "read" /\ got < size
  /\ \/ \E n \in 0..Avail :
          /\ n = Avail \/ (n > 0 /\ nshort < MaxShort)
          /\ LET sh == short \/ n < Avail  k == Min(n - Rem, Logical) IN
             /\ reps' = Append(reps, IF n = Avail THEN 99 ELSE n)
             /\ nshort' = IF n < Avail THEN nshort + 1 ELSE nshort
             /\ short' = sh
             /\ IF k <= 0 THEN Fail(sh, flt) /\ UNCHANGED <<got, chunks>>
                ELSE /\ got' = got + k
                     /\ chunks' = Append(chunks, [at |-> off + got, k |-> k])
                     /\ UNCHANGED <<st, passes>>
             /\ UNCHANGED <<flt>>
     \/ /\ MaxFlt > 0 /\ reps' = Append(reps, 0 - 1) /\ flt' = TRUE
        /\ Fail(short, TRUE) /\ UNCHANGED <<got, chunks, short, nshort>>
  /\ UNCHANGED <<par, off, size, pos>>

\* the block is taken up again later, after some of what was delivered
Again == /\ st = "read" /\ got > 0 /\ Len(passes) = 0
         /\ \E a \in 0..got :
              /\ passes' = Pass(IF got = size THEN "fin" ELSE "part")
              /\ off' = off + a /\ size' = size - a
              /\ pos' = a
         /\ got' = 0 /\ chunks' = <<>> /\ flt' = FALSE /\ short' = FALSE
         /\ reps' = Append(reps, 0 - 100)
         /\ UNCHANGED <<st, par, nshort>>

Finish == /\ st = "read" /\ got = size
          /\ passes' = Pass("fin") /\ st' = "done"
          /\ UNCHANGED <<par, off, size, got, chunks, reps, nshort, flt, short, pos>>

Next == Pick \/ Read \/ Again \/ Finish
Spec == Init /\ [][Next]_vars

Rec == [kind |-> "read", flen |-> par.flen, direct |-> par.direct, passes |-> passes, misaligned |-> FALSE,
        closedfd |-> FALSE, leak |-> 0]
Inv == /\ st = "done" => Ok(Rec)
       /\ (st = "read" /\ got < size) => /\ Logical > 0 /\ Physical <= par.buf
                                         /\ Rem + Logical <= Physical
                                         /\ (par.direct => (off + got - Rem) % K = 0 /\ Physical % K = 0)
Show == (Emit /\ st = "done") => PrintT(<<"CASE", ToJson([par |-> par, reps |-> reps, adv |-> pos, np |-> Len(passes)])>>)
====
