---- MODULE FileOpenModel ----
(* Three threads that open, write and log blocks of one or two files: every
   interleaving. *)
EXTENDS FileOpen, TLC, Json
VARIABLES cs, s, p, rest
Cfgs == {[ow |-> ow, res |-> r[1], tree |-> r[2], pre |-> pr, f1 |-> n, f2 |-> -1, f3 |-> -1, f4 |-> -1] :
            ow \in {0, 1}, r \in {<<0, 0>>, <<1, 0>>, <<1, 1>>}, pr \in {0, 1}, n \in {-1, 0, 3, 8}}
Hows == {"NOT_EXISTS", "TOO_LARGE", "TOO_SMALL", "CORRECT"}
\* TOO_SMALL and CORRECT are said of files that are no larger than announced
Fits(cfg, how, n) == how \in {"TOO_SMALL", "CORRECT"} => cfg.f1 <= n /\ cfg.res = 1
Blk(f, q, n, how, o, v) == <<<<"open", f, q, n, how>>, <<"write", o, v, 1>>, <<"blk", q>>>>
Tail1 == <<<<"read", "f1">>, <<"read", "f2">>, <<"log">>, <<"fds">>>>
TheCases == {[kind |-> "fileopen", cfg |-> x[1],
              prog |-> (0 :> Blk("f1", 1, x[2], x[3], 0, 1) \o <<<<"join">>>> \o Tail1)
                       @@ (1 :> Blk("f1", 1, x[2], x[3], 1, 2) \o <<<<"bye">>>>)
                       @@ (2 :> (IF x[4] THEN Blk("f1", 1, x[2], x[3], 2, 3) ELSE Blk("f2", 2, 3, "NOT_EXISTS", 0, 4)) \o <<<<"bye">>>>)] :
               x \in {y \in Cfgs \X {3, 9} \X Hows \X BOOLEAN : Fits(y[1], y[3], y[2])}}
None2(o, r) == <<>>
INSTANCE LinModel WITH S0 <- FoS0, Step <- FoStep, After <- None2, Cases <- TheCases
Stop == s # s
Inv == OneMaker(s) /\ Kept(s) /\ Ordered(cs.cfg, s)
====
