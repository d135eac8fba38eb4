----------------------------- MODULE SoftMoEGen -----------------------------
EXTENDS GenLib
\* Tokens, slots per expert (0: by capacity factor), experts, groups, score
\* scale, capacity factor in quarters.
Write == WriteCases([T : {2, 3, 5}, P : {0, 1, 2}, E : {1, 2, 3}, G : {1, 2},
                     scale : {1, 4}, cf : {4, 7}])
=============================================================================
