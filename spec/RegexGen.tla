------------------------------ MODULE RegexGen ------------------------------
(* Patterns over a small alphabet, with many overlapping matches.            *)
EXTENDS GenLib
CONSTANT MaxAtoms
Word(w) == [k |-> "word", w |-> w]
Atoms == {Word("a"), Word("b"), Word("ab"), Word("/"), Word("a/b"),
          [k |-> "any", w |-> ""], [k |-> "star", w |-> ""], [k |-> "set", w |-> "ab"]}
Cases == {[start |-> s, end |-> e, atoms |-> q] :
            s \in BOOLEAN, e \in BOOLEAN,
            q \in UNION {[1 .. n -> Atoms] : n \in 1 .. MaxAtoms}}
Write == WriteCases(Cases)
=============================================================================
