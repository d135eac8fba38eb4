------------------------------ MODULE Summaries ------------------------------
(* Every leaf is looked at with every rule, in order; where the pattern of   *)
(* the rule is found in the name, the transformations are applied one after  *)
(* the other and each component of the result is reported under a name.      *)
(* Arrays: [shape, v] with the values v in row-major order.                  *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt
CONSTANTS NLeaves, NRules, NShapes, Most
Shapes == {<<<<>>, <<2, 2>>, <<3, 1>>, <<1, 2, 3>>, <<1>>, <<2>>, <<4>>>>[i] : i \in 1 .. NShapes}
VARIABLES match,    \* which rule is found in the name of which leaf
          shape,    \* leaf -> shape of its summary
          at,       \* <<leaf, rule>> to be looked at next
          out,      \* reported: <<leaf, rule, index>>
          state     \* "run", "done", "rejected"
vars == <<match, shape, at, out, state>>

Prod(s) == FoldSeq(LAMBDA a, b : a * b, 1, s)
(* k-th index (from 0) of a shape in row-major order, as a sequence.         *)
Index(s, k) == [d \in DOMAIN s |-> (k \div Prod(SubSeq(s, d + 1, Len(s)))) % s[d]]
Place(s, idx) == FoldSet(LAMBDA d, acc : acc + (idx[d] * Prod(SubSeq(s, d + 1, Len(s)))), 0, DOMAIN s)
Indices(s) == [k \in 1 .. Prod(s) |-> Index(s, k - 1)]

(* Values grouped by the position left when the axes are removed.            *)
Keep(s, axes) == [d \in DOMAIN s |-> IF d \in axes THEN 1 ELSE s[d]]
Group(a, axes, k) ==
  LET s == Keep(a.shape, axes)
      me == Index(s, k - 1)
  IN  { j \in DOMAIN a.v : \A d \in DOMAIN s : d \in axes \/ Index(a.shape, j - 1)[d] = me[d] }
Total(a, J) == FoldSet(LAMBDA j, acc : acc + a.v[j], 0, J)
Squares(a, J) == FoldSet(LAMBDA j, acc : acc + (a.v[j] * a.v[j]), 0, J)
Least(a, J) == CHOOSE x \in {a.v[j] : j \in J} : \A j \in J : x <= a.v[j]
Largest(a, J) == CHOOSE x \in {a.v[j] : j \in J} : \A j \in J : x >= a.v[j]
Reduce(a, op, axes) ==
  LET s == Keep(a.shape, axes) IN
  [shape |-> s, v |-> [k \in 1 .. Prod(s) |->
     LET J == Group(a, axes, k) IN
     CASE op = "sum" -> Total(a, J)
       [] op = "mean" -> Total(a, J) \div Cardinality(J)
       [] op = "min" -> Least(a, J)
       [] op = "max" -> Largest(a, J)]]

(* What tells the components apart: the indices of the axes that remain.     *)
Shown(s, idx) == SelectSeq([d \in DOMAIN s |-> IF s[d] > 1 THEN idx[d] ELSE -1], LAMBDA x : x >= 0)

Init == /\ match \in [1 .. NLeaves -> [1 .. NRules -> BOOLEAN]]
        /\ shape \in [1 .. NLeaves -> Shapes]
        /\ at = <<1, 1>> /\ out = <<>> /\ state = "run"
Look == /\ state = "run"
        /\ LET leaf == at[1]  rule == at[2]  s == shape[leaf]  hit == match[leaf][rule] IN
             IF hit /\ Prod(s) > Most THEN state' = "rejected" /\ UNCHANGED <<at, out>>
             ELSE /\ out' = IF hit THEN out \o [k \in 1 .. Prod(s) |-> <<leaf, rule, Shown(s, Index(s, k - 1))>>] ELSE out
                  /\ at' = IF rule < NRules THEN <<leaf, rule + 1>> ELSE <<leaf + 1, 1>>
                  /\ state' = IF rule = NRules /\ leaf = NLeaves THEN "done" ELSE "run"
        /\ UNCHANGED <<match, shape>>
Next == Look
Spec == Init /\ [][Next]_vars

OneEach == Cardinality({out[i] : i \in DOMAIN out}) = Len(out)
Complete == state = "done" => Len(out) = FoldSet(LAMBDA x, acc : acc + (IF match[x[1]][x[2]] THEN Prod(shape[x[1]]) ELSE 0), 0, (1 .. NLeaves) \X (1 .. NRules))
InOrder == \A i, j \in DOMAIN out : i < j => out[i][1] < out[j][1] \/ (out[i][1] = out[j][1] /\ out[i][2] <= out[j][2])
Bound == \A x \in 1 .. NLeaves : \A r \in 1 .. NRules : Cardinality({i \in DOMAIN out : out[i][1] = x /\ out[i][2] = r}) <= Most
RoundTrip == \A x \in 1 .. NLeaves : \A k \in 1 .. Prod(shape[x]) : Place(shape[x], Index(shape[x], k - 1)) = k - 1
=============================================================================
