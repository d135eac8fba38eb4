----------------------------- MODULE CkptFSGen -----------------------------
(* Crash vectors: how many operations each file has completed at the crash.  *)
EXTENDS GenLib
CONSTANTS NFiles, MaxOps
Write == WriteCases([1..NFiles -> 0..MaxOps])
=============================================================================
