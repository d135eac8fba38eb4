----------------------------- MODULE EvaluateGen -----------------------------
EXTENDS GenLib
CONSTANT MaxCells
Shapes == {s \in [b : 1 .. MaxCells, k : 1 .. MaxCells] : s.b * s.k <= MaxCells}
Layouts == UNION {{[b |-> s.b, k |-> s.k, mask |-> SetToSeq(m)] :
                    m \in (SUBSET (1 .. (s.b * s.k))) \ {{}}} : s \in Shapes}
Whens == {[every |-> e, on |-> SetToSeq(o)] : e \in 0 .. 4, o \in {{}, {1}, {3}, {2, 5}}}
Cases == {[layout |-> l, when |-> CHOOSE w \in Whens : TRUE] : l \in Layouts}
         \cup {[layout |-> [b |-> 2, k |-> 2, mask |-> <<1, 3>>], when |-> w] : w \in Whens}
Write == WriteCases(Cases)
=============================================================================
