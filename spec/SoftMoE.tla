------------------------------- MODULE SoftMoE -------------------------------
(* Soft routing.  a[t][s] > 0 is the exponential of the score of token t and *)
(* slot s.  A slot receives the tokens weighted by a normalised over tokens; *)
(* a token receives the slot outputs weighted by the same a normalised over  *)
(* all slots of all experts.                                                 *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, TLC

SumF(S, f(_)) == FoldSet(LAMBDA i, acc : f(i) + acc, 0, S)
Dot(x, y) == SumF(DOMAIN x, LAMBDA i : x[i] * y[i])
\* Integer vectors with an integer norm n: cosine = Dot / (n * n').
Cos(x, y, k) == (k * Dot(x.v, y.v)) \div (x.n * y.n)
Slots(tokens, experts, num, den) ==   \* capacity factor num/den, to nearest (even)
  LET a == tokens * num   b == experts * den
      q == a \div b   r == a % b
  IN  IF 2 * r > b \/ (2 * r = b /\ q % 2 = 1) THEN q + 1 ELSE q

CONSTANTS T, S, A, X
VARIABLES a, x, out, pc
vars == <<a, x, out, pc>>
\* Numerators and denominators of the weights.
ColSum(s) == SumF(1..T, LAMBDA t : a[t][s])
RowSum(t) == SumF(1..S, LAMBDA s : a[t][s])
\* Value of slot s times its ColSum.
SlotNum(s) == SumF(1..T, LAMBDA t : a[t][s] * x[t])
Prod == LET RECURSIVE P(_)
            P(s) == IF s = 0 THEN 1 ELSE ColSum(s) * P(s - 1)
        IN  P(S)
\* Output of token t times RowSum(t) * Prod (experts are the identity).
OutNum(t) == SumF(1..S, LAMBDA s : a[t][s] * SlotNum(s) * (Prod \div ColSum(s)))
Init == /\ a \in [1..T -> [1..S -> 1..A]] /\ x \in [1..T -> 0..X]
        /\ out = <<>> /\ pc = "mix"
Mix == /\ pc = "mix" /\ pc' = "done"
       /\ out' = [t \in 1..T |-> <<OutNum(t), RowSum(t) * Prod>>]
       /\ UNCHANGED <<a, x>>
Spec == Init /\ [][Mix]_vars
Lo == CHOOSE v \in {x[t] : t \in 1..T} : \A t \in 1..T : v <= x[t]
Hi == CHOOSE v \in {x[t] : t \in 1..T} : \A t \in 1..T : v >= x[t]
\* Slots and outputs are convex combinations: inside the range of the tokens.
Convex == pc = "done" =>
  /\ \A s \in 1..S : Lo * ColSum(s) <= SlotNum(s) /\ SlotNum(s) <= Hi * ColSum(s)
  /\ \A t \in 1..T : Lo * out[t][2] <= out[t][1] /\ out[t][1] <= Hi * out[t][2]
\* Equal tokens with equal scores get equal outputs: nothing depends on position.
Equivariant == pc = "done" => \A t, u \in 1..T :
  a[t] = a[u] => out[t] = out[u]
=============================================================================
