---------------------------- MODULE MixupTrace -------------------------------
(* Examples are numbered 0 .. N-1 in row-major order of r.dims; images and   *)
(* labels tell the weight of every original in every mixed example (10^6).   *)
EXTENDS TraceLib
One == 1000000
N(dims) == ProdSeq(dims)
Stride(dims, a) == ProdSeq(SubSeq(dims, a + 1, Len(dims)))
Coord(dims, x, a) == (x \div Stride(dims, a)) % dims[a]
(* The example i places further along the axis, going round.                 *)
Next(r, x, i) ==
  LET a == r.axis  n == r.dims[a]  c == Coord(r.dims, x, a)
  IN  x + ((((c + i) % n) - c) * Stride(r.dims, a))
(* Which weights are shared: those of equal coordinates along the axes that  *)
(* the weights have.                                                         *)
Group(r, x) == [a \in DOMAIN r.dims |-> IF r.wdims[a] = 1 THEN 0 ELSE Coord(r.dims, x, a)]
Near(a, b, tol) == AbsV(a - b) <= tol
Ring(r) == r.dims[r.axis]
Mix(r) ==
  LET X == 0 .. (N(r.dims) - 1)
      W(x, y) == r.images[x + 1][y + 1]
      Along(x) == [i \in 1 .. Ring(r) |-> W(x, Next(r, x, i - 1))]
      groups == {Group(r, x) : x \in X}
  IN  Clause(Len(r.images) = N(r.dims) /\ Len(r.labels) = N(r.dims), "Size")
      \cup Clause(\A x, y \in X : Near(W(x, y), r.labels[x + 1][y + 1], 3), "SameForLabels")
      \cup Clause(\A x \in X : Near(SumSeq(r.images[x + 1]), One, 20), "Convex")
      \cup Clause(\A x, y \in X : W(x, y) >= 0, "NonNegative")
      \cup Clause(\A x, y \in X : W(x, y) > 0 =>
                    \E i \in 0 .. ((IF r.size < Ring(r) THEN r.size ELSE Ring(r)) - 1) : y = Next(r, x, i), "Partners")
      \cup Clause(r.size > Ring(r) \/ \A x \in X : \A i \in 1 .. (Ring(r) - 1) : Along(x)[i] >= Along(x)[i + 1] - 1, "Descending")
      \cup Clause(\A x, y \in X : Group(r, x) = Group(r, y) =>
                    \A i \in 1 .. Ring(r) : Near(Along(x)[i], Along(y)[i], 3), "SharedWeights")
      \cup Clause((r.size = 1 \/ Ring(r) = 1) => \A x \in X : W(x, x) = One, "NothingToMix")
      \cup Clause((r.size > 1 /\ Ring(r) > 1 /\ Cardinality(groups) > 1)
                  => \E x, y \in X : \E i \in 1 .. Ring(r) : Along(x)[i] # Along(y)[i], "OwnWeights")
Step(r) ==
  Mix(r)
  \cup Clause(r.fresh \/ r.size = 1 \/ Ring(r) = 1, "FreshWeights")
  \cup Clause(r.repeat, "Deterministic")
  \cup Clause(r.untouched, "StateUntouched")
  \cup Clause(r.keys, "KeysMoveOn")
  \cup Clause(r.inner, "InnerStep")
FailedClauses(r) ==
  CASE r.op = "mix"    -> Mix(r)
    [] r.op = "step"   -> Step(r)
    [] r.op = "reject" -> Clause(r.rejected = r.bad, "Rejects")
    [] r.op = "off"    -> Clause(r.same, "Off")
    [] OTHER           -> {"Unknown"}
=============================================================================
