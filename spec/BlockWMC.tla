---- MODULE BlockWMC ----
(* FileWriter: blocks of one file, written by turns in pieces, over every answer
   of the system calls. The file is modelled byte by byte: file[p] is the block
   whose byte it is, 0 what was there before. Each behaviour's record must be
   allowed by BlockIO, and is printed as a case for the real code. *)
EXTENDS BlockIO, TLC, Json, FiniteSets

CONSTANTS FSize, MaxPiece, MaxTrouble, Layouts, Emit

Min(a, b) == IF a < b THEN a ELSE b
Blk(o, s) == [off |-> o, size |-> s, gave |-> 0, put |-> 0, opened |-> FALSE, failed |-> FALSE, st |-> "new",
              wflt |-> FALSE, oflt |-> FALSE, sflt |-> FALSE, cflt |-> FALSE, synced |-> FALSE, sync |-> "OK", close |-> "OK",
              todo |-> 0]
\* where the file is cut into blocks
Cuts == {<<Blk(0, FSize)>>} \cup {<<Blk(0, k), Blk(k, FSize - k)>> : k \in 1..FSize - 1}
        \cup {<<Blk(k, FSize - k), Blk(0, k)>> : k \in 1..FSize - 1}
        \cup {<<Blk(k, 1)>> : k \in 0..FSize - 1}

VARIABLES st, par, bs, file, ops, trouble
vars == <<st, par, bs, file, ops, trouble>>
Init == st = "pick" /\ par = [pre |-> TRUE] /\ bs = <<>> /\ file = <<>> /\ ops = <<>> /\ trouble = 0
Pick == /\ st = "pick" /\ st' = "run"
        /\ \E bl \in Cuts, p \in BOOLEAN, f \in BOOLEAN, s \in Layouts :
             bs' = bl /\ par' = [pre |-> p, mustsync |-> f, was |-> s]
        /\ file' = [q \in 0..FSize - 1 |-> 0]
        /\ UNCHANGED <<ops, trouble>>
Op(k, b, n, ans) == ops' = Append(ops, [op |-> k, b |-> b, n |-> n, ans |-> ans])

Open(b) == /\ bs[b].st = "new" /\ bs' = [bs EXCEPT ![b].st = "open", ![b].opened = TRUE]
           /\ Op("open", b, 0, <<>>) /\ UNCHANGED <<file, trouble>>
\* one write() of n bytes: the calls it makes and their answers
Answers(n) == {<<n>>} \cup {<<k, n - k>> : k \in 1..n - 1} \cup {<<0 - 4, n>>}  \* 4: interrupted
              \cup {<<0 - 28>>} \cup {<<k, 0 - 28>> : k \in 1..n - 1}
RECURSIVE Total(_)
Total(a) == IF a = <<>> THEN 0 ELSE (IF a[1] > 0 THEN a[1] ELSE 0) + Total(Tail(a))
Write(b) ==
  /\ bs[b].st = "open" /\ bs[b].put < bs[b].size
  /\ \E n \in 1..Min(MaxPiece, bs[b].size - bs[b].put) : \E a \in Answers(n) :
       LET bad == \E i \in 1..Len(a) : a[i] = 0 - 28
           lo == bs[b].off + bs[b].gave IN
       /\ Len(a) > 1 \/ bad => trouble < MaxTrouble
       /\ trouble' = trouble + (IF Len(a) > 1 \/ bad THEN 1 ELSE 0)
       /\ file' = [q \in DOMAIN file |-> IF q >= lo /\ q < lo + Total(a) THEN b ELSE file[q]]
       /\ bs' = [bs EXCEPT ![b].put = @ + n, ![b].gave = IF bad THEN @ ELSE @ + n, ![b].failed = bad, ![b].wflt = bad,
                           ![b].synced = FALSE, ![b].st = IF bad THEN "sync" ELSE IF bs[b].put + n = bs[b].size THEN "full" ELSE "open"]
       /\ Op("write", b, n, a)
Sync(b) == /\ bs[b].st \in {"full", "open"} 
           /\ \E f \in BOOLEAN : /\ (f => trouble < MaxTrouble /\ par.mustsync)
                /\ bs' = [bs EXCEPT ![b].st = "sync", ![b].sflt = f, ![b].synced = (~f /\ par.mustsync),
                                    ![b].sync = IF f THEN "FILE_WRITE_ERROR" ELSE "OK"]
                /\ trouble' = trouble + (IF f THEN 1 ELSE 0)
                /\ Op("sync", b, 0, IF f THEN <<0 - 5>> ELSE <<>>)
           /\ UNCHANGED file
Close(b) == /\ bs[b].st = "sync"
            /\ \E f \in BOOLEAN : /\ (f => trouble < MaxTrouble)
                 /\ bs' = [bs EXCEPT ![b].st = "done", ![b].cflt = f, ![b].close = IF f THEN "FILE_WRITE_ERROR" ELSE "OK"]
                 /\ trouble' = trouble + (IF f THEN 1 ELSE 0)
                 /\ Op("close", b, 0, IF f THEN <<0 - 5>> ELSE <<>>)
            /\ UNCHANGED file
End == /\ st = "run" /\ \A b \in 1..Len(bs) : bs[b].st = "done"
       /\ st' = "done" /\ UNCHANGED <<par, bs, file, ops, trouble>>
Next == Pick \/ End \/ (st = "run" /\ UNCHANGED <<st, par>> /\ \E b \in 1..Len(bs) : Open(b) \/ Write(b) \/ Sync(b) \/ Close(b))
Spec == Init /\ [][Next]_vars

Match(b) == LET S == {k \in 0..bs[b].size : \A q \in 0..k - 1 : file[bs[b].off + q] = b} IN CHOOSE k \in S : \A j \in S : j <= k
In(b, q) == q >= bs[b].off /\ q < bs[b].off + bs[b].size
Rec == [kind |-> "write", fsize |-> FSize, pre |-> par.pre, skip |-> FALSE, mustsync |-> par.mustsync, leak |-> 0, writes |-> 1,
        whole |-> FALSE, flen |-> FSize,
        other |-> Cardinality({q \in DOMAIN file : file[q] # 0 /\ ~\E b \in 1..Len(bs) : In(b, q) /\ file[q] = b}),
        blocks |-> [b \in 1..Len(bs) |-> [match |-> Match(b)] @@ bs[b]]]
Inv == st = "done" => Ok(Rec)
Show == (Emit /\ st = "done") => PrintT(<<"CASE", ToJson([par |-> par, fsize |-> FSize, ops |-> ops, 
           bs |-> [b \in 1..Len(bs) |-> [off |-> bs[b].off, size |-> bs[b].size]]])>>)
Vw == <<st, par, bs, file, trouble>>
====
