----------------------------- MODULE RouterLoss -----------------------------
(* The auxiliary losses of a router over one group of items, as exact        *)
(* rationals.  Items are processed one at a time; the gates of each item     *)
(* are w[e] / W.  The importance loss is the squared coefficient of          *)
(* variation of the summed gates, the GShard loss the product of the share   *)
(* of first choices and the mean gate.                                       *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, TLC

\* Squared coefficient of variation of a function on 1..E, as <<num, den>>.
Sum1(x) == FoldSet(LAMBDA i, a : x[i] + a, 0, DOMAIN x)
Sum2(x) == FoldSet(LAMBDA i, a : x[i] * x[i] + a, 0, DOMAIN x)
CV2(x) == << Cardinality(DOMAIN x) * Sum2(x) - Sum1(x) * Sum1(x),
             Sum1(x) * Sum1(x) >>
Best(w) == CHOOSE e \in DOMAIN w :
  /\ \A f \in DOMAIN w : w[f] <= w[e]
  /\ \A f \in DOMAIN w : w[f] = w[e] => e <= f
\* E * sum_e first[e] * imp[e] / (S * S * W)
Gshard(first, imp, S, W) ==
  << Cardinality(DOMAIN imp) * FoldSet(LAMBDA e, a : first[e] * imp[e] + a, 0, DOMAIN imp),
     S * S * W >>

\* When all items have the same logits, in units of the noise, an expert is
\* loaded with the probability that a fresh noise would put it above the K-th
\* best noisy logit.  Expected probabilities (numerical integration), in 1/1000.
WinTable == {
  [l |-> <<0, 10>>, K |-> 1, p |-> <<183, 443>>],
  [l |-> <<0, 20>>, K |-> 1, p |-> <<67, 488>>],
  [l |-> <<0, 10, 20>>, K |-> 1, p |-> <<43, 175, 436>>],
  [l |-> <<0, 10, 20>>, K |-> 2, p |-> <<212, 500, 788>>],
  [l |-> <<0, 5, 10, 30>>, K |-> 2, p |-> <<131, 237, 378, 904>>]}

CONSTANTS E, W, MaxItems
VARIABLES n, imp, first
vars == <<n, imp, first>>
Gates == {w \in [1..E -> 0..W] : Sum1(w) = W}
Init == n = 0 /\ imp = [e \in 1..E |-> 0] /\ first = [e \in 1..E |-> 0]
Item == /\ n < MaxItems /\ n' = n + 1
        /\ \E w \in Gates : /\ imp' = [e \in 1..E |-> imp[e] + w[e]]
                            /\ first' = [first EXCEPT ![Best(w)] = @ + 1]
Spec == Init /\ [][Item]_vars

Permuted(x, p) == [e \in DOMAIN x |-> x[p[e]]]
Balanced(x) == \A e, f \in DOMAIN x : x[e] = x[f]
Total == Sum1(imp) = n * W /\ Sum1(first) = n
Bounds == n > 0 => CV2(imp)[1] >= 0 /\ CV2(imp)[1] <= (E - 1) * CV2(imp)[2]
ZeroIffBalanced == n > 0 => (CV2(imp)[1] = 0) = Balanced(imp)
Symmetric == \A p \in Permutations(1..E) :
  /\ CV2(Permuted(imp, p)) = CV2(imp)
  /\ Gshard(Permuted(first, p), Permuted(imp, p), n, W) = Gshard(first, imp, n, W)
GshardOfBalanced == (n > 0 /\ Balanced(imp)) =>
  Gshard(first, imp, n, W)[1] = Gshard(first, imp, n, W)[2]
=============================================================================
