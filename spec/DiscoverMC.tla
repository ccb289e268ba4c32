------------------------------- MODULE DiscoverMC -------------------------------
(* Enumerates small trees and runs the discovery algorithm on them (a queue of   *)
(* directories to look at, a set of those seen), entries coming in any order;    *)
(* what it finds is what Discover allows.                                        *)
EXTENDS Discover, Json
CONSTANTS Emit, Run
S(n) == <<"src">> \o n
Slots == <<S(<<"a">>), S(<<"b">>), S(<<"a", "a">>), S(<<"a", "b">>), S(<<"b", "a">>)>>
Targets == {S(<<>>), S(<<"a">>), S(<<"b">>), S(<<"a", "a">>), <<"out">>, <<"out", "f">>, <<"nowhere">>}
Nd(p, t, to) == [p |-> p, t |-> t, sz |-> 3, id |-> Len(p) + 64, to |-> to, bad |-> ""]
Kinds(p) == {Nd(p, "f", <<>>), Nd(p, "d", <<>>), Nd(p, "x", <<>>)} \cup {Nd(p, "l", t) : t \in Targets}
Pat(k, str) == [k |-> k, s |-> str]
None == Pat("", "")
Opts == {[follow |-> f, inc |-> x[1], exc |-> x[2], prune |-> x[3], block |-> 0] : f \in BOOLEAN,
          x \in {<<None, None, None>>, <<None, Pat("lit", "a/a"), None>>, <<None, None, Pat("lit", "a/")>>, <<Pat("suf", "a"), None, None>>,
                 <<Pat("pre", "b"), Pat("suf", "a"), None>>, <<None, None, Pat("suf", "a/")>>}}
VARIABLES nodes, k, o, todo, seen, here, left, found, ok
vars == <<nodes, k, o, todo, seen, here, left, found, ok>>
None0 == [follow |-> FALSE, inc |-> None, exc |-> None, prune |-> None, block |-> 0]
Init == /\ nodes = <<Nd(<<"src">>, "d", <<>>), Nd(<<"out">>, "d", <<>>), Nd(<<"out", "f">>, "f", <<>>), Nd(<<"out", "s">>, "d", <<>>)>>
        /\ k = 1 /\ o = None0 /\ todo = <<>> /\ seen = {} /\ here = [rel |-> <<"?">>, at |-> <<>>] /\ left = {} /\ found = <<>> /\ ok = TRUE
ParentDir(p) == Len(p) = 2 \/ \E i \in 1..Len(nodes) : nodes[i].p = SubSeq(p, 1, Len(p) - 1) /\ nodes[i].t = "d"
Build == /\ k <= Len(Slots) /\ k' = k + 1 /\ UNCHANGED <<o, todo, seen, here, left, found, ok>>
         /\ \/ UNCHANGED nodes
            \/ ParentDir(Slots[k]) /\ \E n \in Kinds(Slots[k]) : nodes' = Append(nodes, n)
N == Map(nodes)
Begin == /\ k = Len(Slots) + 1 /\ k' = k + 1 /\ todo' = << <<>> >> /\ o' \in Opts
         /\ (o'.follow => \E i \in 1..Len(nodes) : nodes[i].t = "l")
         /\ UNCHANGED <<nodes, seen, here, left, found, ok>>
At(rel) == Canon(N, Root \o rel)
Open == /\ k = Len(Slots) + 2 /\ left = {} /\ todo # <<>> /\ todo' = Tail(todo)
        /\ here' = [rel |-> todo[1], at |-> At(todo[1])] /\ left' = Children(N, At(todo[1]))
        /\ UNCHANGED <<nodes, k, o, seen, found, ok>>
Entry == \E q \in left :
  LET rel == Append(here.rel, Last(q))
      kind == Kind(N, o, q)
      full == IF N[q].t = "l" THEN Canon(N, q) ELSE Root \o rel
  IN /\ left' = left \ {q} /\ UNCHANGED <<nodes, k, o, here>>
     /\ CASE kind = "f" -> /\ found' = IF Wanted(o, Join(rel)) THEN Append(found, [n |-> Join(rel), sz |-> 3]) ELSE found
                           /\ UNCHANGED <<todo, seen, ok>>
          [] kind = "d" /\ o.follow /\ full \in seen -> ok' = FALSE /\ UNCHANGED <<todo, seen, found>>
          [] kind = "d" /\ ~(o.follow /\ full \in seen) ->
                /\ seen' = IF o.follow THEN seen \cup {full} ELSE seen
                /\ todo' = IF Pruned(o, Join(rel)) THEN todo ELSE Append(todo, rel)
                /\ UNCHANGED <<found, ok>>
          [] kind = "!" -> ok' = FALSE /\ UNCHANGED <<todo, seen, found>>
          [] OTHER -> UNCHANGED <<todo, seen, found, ok>>
Next == Build \/ (Run /\ (Begin \/ Open \/ Entry))
Spec == Init /\ [][Next]_vars
Over == k = Len(Slots) + 2 /\ left = {} /\ todo = <<>>
Rec == [nodes |-> nodes, o |-> o, found |-> found, ok |-> ok, rep |-> TRUE,
        blocks |-> [i \in 1..Len(found) |-> [n |-> found[i].n, off |-> 0, len |-> 3,
                       good |-> (CHOOSE f \in May(N, o) : f.rel = found[i].n).id]]]
Found1 == Over => (\A i \in 1..Len(found) : \E f \in May(N, o) : f.rel = found[i].n)
Sound == Over => TreeOk(Rec)
Bounded == Len(found) <= 40 /\ Len(todo) <= 40
Show == Emit /\ k = Len(Slots) + 1 => PrintT(<<"CASE", ToJson(nodes)>>)
================================================================================
