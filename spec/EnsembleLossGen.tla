--------------------------- MODULE EnsembleLossGen ---------------------------
EXTENDS GenLib
CONSTANTS MaxB, MaxM
Cases == [kind : {"softmax", "sigmoid"}, B : 1 .. MaxB, M : 1 .. MaxM, C : 1 .. 4]
Write == WriteCases(Cases)
=============================================================================
