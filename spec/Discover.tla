-------------------------------- MODULE Discover --------------------------------
(* What directory discovery finds.  The file system is a set of nodes            *)
(*   [p, t, sz, id, to, bad]                                                     *)
(* p a path (sequence of names) below a scratch directory; t is "f" file, "d"    *)
(* directory, "l" symbolic link to the path `to`, "x" something else; bad says   *)
(* what does not work: "open" (the directory cannot be opened), "list" (reading  *)
(* it fails midway), "stat" (its entries cannot be looked at), "read" (the file  *)
(* cannot be opened).  The root of the transfer is the path <<"src">>.           *)
EXTENDS Integers, Sequences, FiniteSets, TLC

NoPath == <<"!">>
Root == <<"src">>
Range(s) == {s[i] : i \in 1..Len(s)}
Map(nodes) == [q \in {nodes[i].p : i \in 1..Len(nodes)} |-> nodes[CHOOSE i \in 1..Len(nodes) : nodes[i].p = q]]

(* The canonical path of a path, links resolved; NoPath if it leads nowhere. *)
RECURSIVE Res(_, _, _, _)
Res(N, done, rest, k) ==
  IF k = 0 THEN NoPath
  ELSE IF rest = <<>> THEN done
  ELSE LET q == Append(done, rest[1]) IN
       IF q \notin DOMAIN N THEN NoPath
       ELSE IF N[q].t = "l" THEN Res(N, <<>>, N[q].to \o Tail(rest), k - 1)
       ELSE IF Len(rest) > 1 /\ N[q].t # "d" THEN NoPath
       ELSE Res(N, q, Tail(rest), k)
Canon(N, p) == Res(N, <<>>, p, 12)
(* whether looking at a path needs a directory that cannot be looked into *)
RECURSIVE Via(_, _, _, _)
Via(N, done, rest, k) ==
  IF k = 0 \/ rest = <<>> THEN FALSE
  ELSE LET q == Append(done, rest[1]) IN
       \/ done \in DOMAIN N /\ N[done].bad = "stat"
       \/ /\ q \in DOMAIN N
          /\ IF N[q].t = "l" THEN Via(N, <<>>, N[q].to \o Tail(rest), k - 1) ELSE Via(N, q, Tail(rest), k)
Blocked(N, q) == N[q].t = "l" /\ Via(N, <<>>, q, 12)
Children(N, dir) == {q \in DOMAIN N : Len(q) = Len(dir) + 1 /\ SubSeq(q, 1, Len(dir)) = dir}
Last(s) == s[Len(s)]

RECURSIVE Join(_)
Join(p) == IF p = <<>> THEN "" ELSE IF Len(p) = 1 THEN p[1] ELSE p[1] \o "/" \o Join(Tail(p))

(* Patterns match the whole name: all, a literal, a prefix, a suffix. *)
Matches(pat, s) ==
  CASE pat.k = "all" -> TRUE
    [] pat.k = "lit" -> s = pat.s
    [] pat.k = "pre" -> Len(s) >= Len(pat.s) /\ SubSeq(s, 1, Len(pat.s)) = pat.s
    [] pat.k = "suf" -> Len(s) >= Len(pat.s) /\ SubSeq(s, Len(s) - Len(pat.s) + 1, Len(s)) = pat.s
    [] OTHER -> FALSE
Wanted(o, s) == (o.inc.k = "" \/ Matches(o.inc, s)) /\ ~(o.exc.k # "" /\ Matches(o.exc, s))
Pruned(o, s) == o.prune.k # "" /\ Matches(o.prune, s \o "/")

(* What an entry is, once links are resolved if that is asked for. *)
Kind(N, o, q) == IF N[q].t # "l" THEN N[q].t
                 ELSE IF ~o.follow THEN "x"
                 ELSE LET c == Canon(N, q) IN IF c = NoPath THEN "!" ELSE N[c].t
Real(N, q) == IF N[q].t = "l" THEN Canon(N, q) ELSE q

(* All names of directories below the root: [rel, at, on, cut] where rel is the  *)
(* name, at the directory it stands for, on the directories on the way, cut      *)
(* whether pruning stops it, by which no directory occurs more than `twice + 1`  *)
(* times on the way.                                                             *)
RECURSIVE Walk(_, _, _, _)
Walk(N, o, twice, front) ==
  IF front = {} THEN {}
  ELSE front \cup Walk(N, o, twice, UNION {
         {LET c == Real(N, q) IN
            [rel |-> Append(d.rel, Last(q)), at |-> c,
             txt |-> IF N[q].t = "l" THEN c ELSE Root \o Append(d.rel, Last(q)), on |-> Append(d.on, c), cut |-> d.cut \/ Pruned(o, Join(Append(d.rel, Last(q)))),
             bad |-> d.bad \/ N[c].bad # "" \/ Blocked(N, q)] :
            q \in {q \in Children(N, d.at) : Kind(N, o, q) = "d"
                     /\ Cardinality({i \in 1..Len(d.on) : d.on[i] = Real(N, q)}) <= twice}} : d \in front})
Start(N, o) == LET c == Canon(N, Root) IN {[rel |-> <<>>, at |-> c, txt |-> c, on |-> <<c>>, cut |-> FALSE, bad |-> N[c].bad # ""]}
Dirs(N, o) == Walk(N, o, 0, Start(N, o))
AllDirs(N, o) == IF o.follow THEN Walk(N, o, 1, Start(N, o)) ELSE Dirs(N, o)

FilesIn(N, o, D) == UNION {{[rel |-> Join(Append(d.rel, Last(q))), sz |-> N[Real(N, q)].sz, id |-> N[Real(N, q)].id, on |-> d.on,
                             bad |-> d.bad \/ Blocked(N, q), unreadable |-> N[Real(N, q)].bad # ""] :
                            q \in {q \in Children(N, d.at) : Kind(N, o, q) = "f" /\ Wanted(o, Join(Append(d.rel, Last(q))))}} :
                           d \in {d \in D : ~d.cut}}
(* a directory with one name only is never passed over *)
Single(D, c) == Cardinality({d \in D : d.at = c}) <= 1
May(N, o) == FilesIn(N, o, AllDirs(N, o))
Must(N, o) == LET D == Dirs(N, o) IN {f \in FilesIn(N, o, D) : ~o.follow \/ \A c \in Range(f.on) : Single(D, c)}
NoPatterns(o) == o.inc.k = "" /\ o.exc.k = "" /\ o.prune.k = ""

----------------------------------------------------------------------------
(* The verdict on a run: found are the files discovered, blocks what was handed  *)
(* out and read, ok the return value, rep whether the transfer's report says OK. *)
OffsetsOk(B, sz, parts) ==
  IF sz = 0 \/ B <= 0 THEN parts = {<<0, sz>>}
  ELSE parts = {<<k * B, IF (k + 1) * B > sz THEN sz - k * B ELSE B>> : k \in 0..((sz - 1) \div B)}
BlocksOf(r, n) == {r.blocks[i] : i \in {i \in 1..Len(r.blocks) : r.blocks[i].n = n}}
Sent(r, f) == LET b == BlocksOf(r, f.rel) IN
              /\ OffsetsOk(r.o.block, f.sz, {<<x.off, x.len>> : x \in b})
              /\ \A x \in b : x.good = f.id \/ x.len = 0
Found(r) == {[rel |-> r.found[i].n, sz |-> r.found[i].sz] : i \in 1..Len(r.found)}
Name(f) == [rel |-> f.rel, sz |-> f.sz]

TreeOk(r) ==
  LET N == Map(r.nodes)
      o == r.o
      may == May(N, o)
      must == Must(N, o)
      F == Found(r)
      anyBad == \E q \in DOMAIN N : N[q].bad # ""
      dirs == Dirs(N, o)
      sent == {f \in may : Name(f) \in F /\ Sent(r, f)}
  IN /\ F \subseteq {Name(f) : f \in may}                                  \* nothing else
     /\ Cardinality({f.rel : f \in F}) = Len(r.found)                      \* each once
     /\ \A f \in must : ~f.bad => Name(f) \in F                            \* all of them
     /\ \A f \in may : Name(f) \in F /\ ~f.unreadable /\ ~f.bad => Sent(r, f)
     /\ \A i \in 1..Len(r.blocks) : \E f \in F : f.rel = r.blocks[i].n
     /\ r.rep => \A f \in must : f \in sent                                \* or the transfer fails
     /\ o.follow /\ NoPatterns(o) =>                                       \* whatever name it is sent by
          \A d \in dirs : ~d.bad /\ (\A e \in dirs : e.at = d.at => ~e.bad) =>
             \A q \in Children(N, d.at) : Kind(N, o, q) = "f" /\ ~Blocked(N, q) =>
                \E e \in AllDirs(N, o) : e.at = d.at /\ Join(Append(e.rel, Last(q))) \in {f.rel : f \in F}
     /\ o.follow =>                                                        \* a directory linked to is not sent twice
          LET used == {d \in AllDirs(N, o) : d.rel # <<>> /\ \E q \in Children(N, d.at) : Join(Append(d.rel, Last(q))) \in {f.rel : f \in F}}
          IN \A d, e \in used : d.txt = e.txt => d = e
     /\ ~anyBad => r.rep
     /\ r.rep \/ anyBad
     /\ r.ok => ~(o.follow /\ \E d \in dirs : ~d.cut /\ Single(dirs, d.at) /\ ~d.bad /\ \E q \in Children(N, d.at) : Kind(N, o, q) = "!")
     /\ ~anyBad /\ ~o.follow => r.ok
     /\ ~anyBad /\ o.follow /\ (\A q \in DOMAIN N : N[q].t # "l") => r.ok

(* A list of files: exactly those, or the transfer fails. *)
ListOk(r) ==
  LET L == {[rel |-> r.list[i].n, sz |-> r.list[i].sz] : i \in 1..Len(r.list)}
      F == Found(r)
      allOk == \A i \in 1..Len(r.list) : r.list[i].ok
  IN /\ {f.rel : f \in F} \subseteq {f.rel : f \in L} /\ Cardinality({f.rel : f \in F}) = Len(r.found)
     /\ allOk => F = L /\ r.ok /\ r.rep
     /\ ~allOk => ~r.rep
     /\ \A i \in 1..Len(r.list) : r.list[i].ok /\ [rel |-> r.list[i].n, sz |-> r.list[i].sz] \in F =>
          Sent(r, [rel |-> r.list[i].n, sz |-> r.list[i].sz, id |-> r.list[i].id])
     /\ \A i \in 1..Len(r.blocks) : \E f \in F : f.rel = r.blocks[i].n

Ok(r) == /\ IF r.mode = "tree" THEN TreeOk(r) ELSE ListOk(r)
         /\ r.leak = 0 /\ r.dup = 0
         /\ r.count = Len(r.found) /\ r.again = FALSE /\ r.status = r.rep
================================================================================
