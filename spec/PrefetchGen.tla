----------------------------- MODULE PrefetchGen -----------------------------
(* Two sources and an interleaving of the requests of their consumers.       *)
EXTENDS GenLib
CONSTANTS MaxN, MaxSize
Src == {s \in [n : 0 .. MaxN, size : 0 .. MaxSize, err : 0 .. (MaxN + 1)] : s.err <= s.n + 1}
(* One source in all ways; two of them in an order given by the parameters.  *)
Cases == {<<s>> : s \in Src} \cup
         {<<s, [n |-> m, size |-> k, err |-> 0]>> : s \in {x \in Src : x.n >= 2}, m \in {0, 3}, k \in {0, 2}}
Write == WriteCases(Cases)
=============================================================================
