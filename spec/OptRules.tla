------------------------------ MODULE OptRules -------------------------------
(* The order in which an optimizer treats a gradient.                        *)
EXTENDS Integers, Sequences
Stages == <<"scale", "clip", "direction", "decay", "rate", "freeze">>
=============================================================================
