----------------------------- MODULE MappingGen ------------------------------
EXTENDS GenLib
CONSTANT MaxRules
Kinds == {"copy", "drop", "reshape", "squeeze", "expand", "stack", "zoom", "vit"}
Cases == [kinds : UNION {[1 .. n -> Kinds] : n \in 1 .. MaxRules},
          twist : {"none", "extra source", "extra target", "shape", "dtype", "twice", "shadow", "empty", "word"},
          strict : {"all", "none", "mixed"}]
Write == WriteCases(Cases)
=============================================================================
