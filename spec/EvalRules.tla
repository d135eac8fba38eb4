----------------------------- MODULE EvalRules ------------------------------
(* Sharing n examples among P processes and padding them to whole batches.   *)
EXTENDS Integers, Sequences, FiniteSets
CeilDiv(a, b) == (a + b - 1) \div b
MaxShare(n, P) == CeilDiv(n, P)
Batches(n, P, B) == CeilDiv(MaxShare(n, P), B)
=============================================================================
