--------------------------- MODULE RouterLossGen ---------------------------
EXTENDS GenLib
Bag == [e \in {2, 3, 4} |-> CASE e = 2 -> <<1, 3>> [] e = 3 -> <<1, 2, 5>>
                              [] OTHER -> <<1, 2, 4, 9>>]
Perms(e) == {[i \in 1..e |-> Bag[e][p[i]]] : p \in Permutations(1..e)}
Of(e, s) == [E : {e}, w : [1..s -> Perms(e)]]
Write == WriteCases(Of(2, 4) \cup Of(3, 3) \cup Of(4, 2))
=============================================================================
