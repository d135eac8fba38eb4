---------------------------- MODULE CkptNamesGen ----------------------------
EXTENDS GenLib
F(s, i, n, tmp) == [s |-> s, i |-> i, n |-> n, tmp |-> tmp]
Plain == F("", 0, 0, FALSE)
Idx == F(".index", 0, 0, FALSE)
Dat == F(".data", 0, 0, FALSE)
Sh(i, n) == F(".data", i, n, FALSE)
ShT(i, n) == F(".data", i, n, TRUE)
\* What may be there of one step.
Kinds == { {}, {Plain}, {Plain, F("", 0, 0, TRUE)}, {F("", 0, 0, TRUE)},
  {Idx}, {Idx, Dat}, {Idx, Dat, Plain}, {Plain, F(".index", 0, 0, TRUE)},
  {Idx, Dat, F(".other", 0, 0, TRUE)},
  {Idx, Sh(0, 2), Sh(1, 2)}, {Idx, Sh(0, 2)}, {Idx, Sh(1, 2)},
  {Idx, Sh(0, 2), ShT(1, 2)}, {Idx, Sh(0, 2), Sh(1, 2), ShT(1, 2)},
  {Idx, Sh(0, 1)}, {Idx, Sh(0, 3), Sh(1, 2), Sh(0, 2)},
  {Idx, Sh(0, 3), Sh(1, 3)}, {Sh(0, 2), Sh(1, 2)},
  {Plain, F("", 0, 2, FALSE)}, {F("", 0, 2, FALSE), F("", 1, 2, FALSE)},
  {F("", 0, 2, FALSE)}, {F("", 0, 2, FALSE), F("", 1, 2, TRUE)} }
Extras == {"none", "other", "othertmp", "longer", "nested"}
Requests == {"none", "both", "index"}
Write == WriteCases([lo : Kinds, hi : Kinds, extra : Extras, req : Requests])
=============================================================================
