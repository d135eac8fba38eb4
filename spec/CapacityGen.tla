----------------------------- MODULE CapacityGen ----------------------------
EXTENDS GenLib
CONSTANTS MaxTokens, MaxExperts, Mults
Cases == {<<t, e, m, k>> : t \in 1..MaxTokens, e \in 1..MaxExperts,
                           m \in {"ceil", "round"}, k \in Mults}
Write == WriteCases(Cases)
=============================================================================
