----------------------------- MODULE TrainRules ------------------------------
(* Which steps are saved and kept.                                           *)
EXTENDS Integers, FiniteSets
MaxIn(S) == CHOOSE x \in S : \A y \in S : y <= x
(* The newest `keep` of them (0: all) and the multiples of `mult` (0: none). *)
Kept(S, keep, mult) ==
  {x \in S : \/ keep = 0
             \/ Cardinality({y \in S : y > x}) < keep
             \/ (mult > 0 /\ x % mult = 0)}
DueAt(step, every) == step % every = 0
=============================================================================
