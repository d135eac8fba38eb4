---------------------------- MODULE EnsembleGen ----------------------------
\* All items of one group: weights of each item over its own block, adding to W.
EXTENDS GenLib
CONSTANTS M, Em, T, W
Vectors == {w \in [1..Em -> 0..W] : FoldSet(LAMBDA i, a : w[i] + a, 0, 1..Em) = W}
Write == WriteCases([1..(M * T) -> Vectors])
=============================================================================
