-------------------------- MODULE EvalPipelineGen ---------------------------
EXTENDS GenLib
CONSTANT MaxN
(* Every process has at least one example.                                   *)
Cases == {c \in [n : 1 .. MaxN, P : 1 .. 4, B : 1 .. 5,
                 filter : {"none", "none2", "marked", "odd", "few", "all"}] : c.n >= c.P}
Write == WriteCases(Cases)
=============================================================================
