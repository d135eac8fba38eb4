----------------------------- MODULE RoutingGen -----------------------------
(* Every gate matrix with integer entries 0..M, as replay cases.             *)
EXTENDS GenLib
CONSTANTS S, E, M
Cases == [1..S -> [1..E -> 0..M]]
Write == WriteCases(Cases)
=============================================================================
