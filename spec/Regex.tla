------------------------------- MODULE Regex --------------------------------
(* The regular expressions used to select parameters by path: sequences of   *)
(* atoms, possibly anchored, possibly with alternatives.  Texts and words    *)
(* are sequences of characters.                                              *)
(*   [k |-> "word", w]  the word   [k |-> "any"]   one character (.)         *)
(*   [k |-> "star"]     .*         [k |-> "set", w] one character of w       *)
EXTENDS Integers, Sequences, FiniteSets

StartsAt(t, i, w) == i + Len(w) - 1 <= Len(t) /\ \A k \in DOMAIN w : t[i + k - 1] = w[k]
(* Positions after the atom a matched at position i of the text t.           *)
After(t, a, i) ==
  CASE a.k = "word" -> IF StartsAt(t, i, a.w) THEN {i + Len(a.w)} ELSE {}
    [] a.k = "any"  -> IF i <= Len(t) THEN {i + 1} ELSE {}
    [] a.k = "set"  -> IF i <= Len(t) /\ \E k \in DOMAIN a.w : a.w[k] = t[i]
                       THEN {i + 1} ELSE {}
    [] a.k = "star" -> i .. (Len(t) + 1)
RECURSIVE Ends(_, _, _)
Ends(t, atoms, I) ==
  IF atoms = <<>> \/ I = {} THEN I
  ELSE Ends(t, Tail(atoms), UNION {After(t, Head(atoms), i) : i \in I})
(* p = [start, end : BOOLEAN, atoms]                                         *)
Search(p, t) ==
  LET from == IF p.start THEN {1} ELSE 1 .. (Len(t) + 1)
      to   == Ends(t, p.atoms, from)
  IN  IF p.end THEN (Len(t) + 1) \in to ELSE to # {}
FullMatch(p, t) == (Len(t) + 1) \in Ends(t, p.atoms, {1})
MatchStart(p, t) == Ends(t, p.atoms, {1}) # {} /\ (p.end => (Len(t) + 1) \in Ends(t, p.atoms, {1}))

(* Index of the first pattern found in the text, or zero.                    *)
FirstFound(ps, t) ==
  IF \E i \in DOMAIN ps : Search(ps[i], t)
  THEN CHOOSE i \in DOMAIN ps : Search(ps[i], t) /\ \A j \in 1 .. (i - 1) : ~Search(ps[j], t)
  ELSE 0
=============================================================================
