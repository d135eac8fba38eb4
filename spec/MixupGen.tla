----------------------------- MODULE MixupGen --------------------------------
EXTENDS GenLib
CONSTANTS D, MaxPer
Cases == [gran : {"batch", "device", "example"}, per : 1 .. MaxPer, size : 1 .. 4, steps : 1 .. 2,
          frozen : BOOLEAN, jit : BOOLEAN, conc : {1, 2, 4}]
Write == WriteCases(Cases)
=============================================================================
