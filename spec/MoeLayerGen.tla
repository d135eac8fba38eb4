---------------------------- MODULE MoeLayerGen ----------------------------
EXTENDS GenLib
Write == WriteCases({c \in [N : 1..4, L : 1..6, size : 1..12, E : 1..4, C : 1..3] :
                       c.size <= c.N * c.L + 1})
=============================================================================
