------------------------------- MODULE GenLib -------------------------------
(* Case generators extend this module and define Cases, a set; TLC writes it *)
(* to the file named by the environment as a JSON array.                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt,
        FiniteSetsExt
VARIABLE genx
GenInit == genx = 0
GenNext == UNCHANGED genx
WriteCases(C) == TLCGet("stats").distinct >= 0 /\ JsonSerialize(IOEnv.OUT, SetToSeq(C))
=============================================================================
