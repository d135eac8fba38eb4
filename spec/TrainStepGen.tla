---------------------------- MODULE TrainStepGen -----------------------------
EXTENDS GenLib
CONSTANTS D, MaxPer
Meshes == {<<e, r>> \in (1 .. D) \X (1 .. D) : e * r = D}
(* micro = 0: no accumulation.                                               *)
Cases == [mesh : Meshes, per : 1 .. MaxPer, micro : 0 .. MaxPer, steps : 1 .. 3, sharded : BOOLEAN,
          aux : {"none", "scalar", "array"}]
Write == WriteCases(Cases)
=============================================================================
