---- MODULE BlockIO ----
(* C27: what reading and writing one block of a file may look like.
   A record (from the model below or from the real code) is either
     kind "read":  flen bytes in the file; passes over the block, each with the
       range [off, off+size) it is about, the chunks delivered ([at, k]: k bytes
       that are the file's bytes at "at"; at = -1 when they are not), how it
       ended ("fin", "err", "part": the reader stopped it, "nil": neither
       finished nor failed and yet nothing delivered), and what the
       environment did: flt a failing read, short a read that gave less than
       there was;
     kind "write": blocks [off, size, gave (bytes whose write was accepted),
       put (bytes offered), opened, failed, match (bytes of the block, from its
       start, that the file has), wflt / sflt / cflt: a write, sync or close was
       made to fail, synced: an fsync of the file followed the last write,
       sync, close: what these calls answered], other: bytes of the file
       outside of what the blocks wrote that changed. *)
EXTENDS Integers, Sequences

RECURSIVE Sum(_)
Sum(cs) == IF cs = <<>> THEN 0 ELSE cs[1].k + Sum(Tail(cs))

\* exactly the range's bytes, in order and once, as far as it went
InOrder(off, cs) == \A i \in 1..Len(cs) : cs[i].k > 0 /\ cs[i].at = off + Sum(SubSeq(cs, 1, i - 1))

PassOk(r, p) ==
  /\ InOrder(p.off, p.chunks)
  /\ Sum(p.chunks) <= p.size
  /\ p.end \in {"fin", "err", "part"}
  /\ (p.end = "fin") <=> (Sum(p.chunks) = p.size)
  /\ (p.end = "err") => Sum(p.chunks) < p.size
  \* a failure has a cause, and the file being too short is one
  /\ (p.end = "err") => (p.flt \/ p.off + p.size > r.flen \/ (r.direct /\ p.short))
  /\ (p.off + p.size > r.flen /\ p.size > 0) => p.end # "fin"

ReadOk(r) == /\ \A i \in 1..Len(r.passes) : PassOk(r, r.passes[i])
             /\ ~r.misaligned  \* what O_DIRECT demands
             /\ ~r.closedfd    \* a descriptor given by the caller stays open
             /\ r.leak = 0

BlockOk(r, b) ==
  /\ b.wflt => b.failed
  /\ (b.failed \/ ~b.opened) => (b.wflt \/ b.oflt)
  /\ b.failed => b.gave < b.put
  /\ (b.opened /\ ~b.failed) => b.gave = b.put
  /\ ~r.skip => b.match >= b.gave
  /\ (r.mustsync /\ b.opened /\ ~b.failed /\ b.gave > 0 /\ b.sync = "OK" /\ ~r.skip) => b.synced
  /\ (b.sflt /\ b.opened) => b.sync # "OK"
  /\ (b.cflt /\ b.opened) => b.close # "OK"
  /\ (b.sync # "OK") => b.sflt
  /\ (b.close # "OK") => b.cflt

WriteOk(r) == /\ \A i \in 1..Len(r.blocks) : BlockOk(r, r.blocks[i])
              /\ r.other = 0
              /\ r.leak = 0
              /\ r.skip => r.writes = 0
              /\ (~r.skip /\ r.pre /\ \A i \in 1..Len(r.blocks) : r.blocks[i].opened) => r.flen = r.fsize
              /\ (~r.skip /\ r.whole /\ \A i \in 1..Len(r.blocks) : ~r.blocks[i].failed /\ r.blocks[i].opened)
                   => r.flen = r.fsize

Ok(r) == CASE r.kind = "read" -> ReadOk(r) [] r.kind = "write" -> WriteOk(r) [] OTHER -> FALSE
====
