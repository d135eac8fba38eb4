----------------------------- MODULE FewShotGen ------------------------------
EXTENDS GenLib
CONSTANT MaxCount
SumSeqOf(s) == FoldSeq(LAMBDA x, y : x + y, 0, s)
Counts == {<<a, b>> : a, b \in 0 .. MaxCount} \cup {<<a, b, c>> : a, b, c \in 0 .. 2}
(* "subset": fewer shots than examples; "full": all examples are used.       *)
Many == {<<a, b>> : a \in 1 .. 4, b \in 1 .. 3} \cup {<<a, b, c>> : a, b, c \in 1 .. 2} \cup {<<3, 0>>, <<2, 0, 3>>}
Cases == {[mode |-> "subset", counts |-> c, k |-> k, shots |-> s, l2 |-> l] :
             c \in Many, k \in {1, 2, 4},
             s \in {<<1>>, <<2>>, <<1, 2>>, <<2, 1, 3>>}, l \in {<<2>>, <<16>>, <<256>>, <<1, 64>>}}
         \cup {[mode |-> "full", counts |-> c, k |-> k, shots |-> s, l2 |-> l] :
             c \in {x \in Counts : SumSeqOf(x) >= 2}, k \in {1, 3, 5},
             s \in {<<5>>, <<4, 9>>}, l \in {<<1, 8, 64>>, <<64, 4>>, <<1, 3, 8, 20>>, <<4, 20, 1, 9>>, <<2>>}}
Write == WriteCases(Cases)
=============================================================================
