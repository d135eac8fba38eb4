----------------------------- MODULE DispatchGen ----------------------------
EXTENDS GenLib
CONSTANTS MaxG, MaxE, MaxC, Variants
Cases == {<<g, e, c, k, v>> : g \in 1..MaxG, e \in 1..MaxE, c \in 1..MaxC,
                              k \in 1..2, v \in Variants}
Write == WriteCases({x \in Cases : x[4] <= x[2]})
=============================================================================
