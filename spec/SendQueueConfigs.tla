-------------------------- MODULE SendQueueConfigs --------------------------
EXTENDS Integers, Sequences
F(sz) == [size |-> sz, ok |-> TRUE, stat |-> TRUE]
Cf(np, files, block, prev, prevOn, del) ==
  [np |-> np, files |-> files, block |-> block, prev |-> prev, prevOn |-> prevOn, del |-> del]
Pv(n, seq, size, ch) == [n |-> n, seq |-> seq, size |-> size, ch |-> ch]
C1 == Cf(2, <<F(3), F(9)>>, 4, <<>>, FALSE, FALSE)
C2 == Cf(2, <<F(8), F(0), [size |-> 4, ok |-> FALSE, stat |-> TRUE], F(4)>>, 4, <<>>, FALSE, FALSE)
C3 == Cf(2, <<F(10), F(3), F(5)>>, 4,
         <<Pv(1, 4, 10, <<<<0, 2>>, <<4, 5>>>>), Pv(2, 2, 8, <<<<0, 8>>>>), Pv(3, 7, 5, <<<<0, 5>>>>),
           Pv(5, 3, 3, <<<<0, 3>>>>)>>, TRUE, TRUE)
C4 == Cf(2, <<F(6), F(2)>>, 4, <<>>, TRUE, FALSE)
C5 == Cf(1, <<F(7), [size |-> 3, ok |-> TRUE, stat |-> FALSE], F(2)>>, 0, <<Pv(1, 1, 3, <<<<0, 3>>>>)>>, TRUE, FALSE)
C6 == Cf(3, <<F(8), F(8), F(1)>>, 4, <<Pv(6, 3, 2, <<<<0, 2>>>>)>>, TRUE, TRUE)
All == {C1, C2, C3, C4, C5, C6}
=============================================================================
