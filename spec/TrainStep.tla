----------------------------- MODULE TrainStep -------------------------------
(* Training steps: the batch is divided into micro-batches, whose gradients  *)
(* are accumulated; every micro-batch draws a random key, derived from that  *)
(* of the state.  The gradient of example e at parameter p is Slope(e) - p.  *)
(* Gradients are kept as (sum, number of terms).                             *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt
CONSTANTS MaxB, MaxSteps
VARIABLES B, m,        \* size of the batch, number of micro-batches (m | B)
          step, param, \* parameter times MaxB!, an integer that B divides
          key,         \* of the state: path of the splittings that lead to it
          used,        \* keys given to the model so far (a sequence)
          i, acc, seen \* micro-batches done, sum of their gradients, examples
vars == <<B, m, step, param, key, used, i, acc, seen>>
Fact[n \in 0 .. MaxB] == IF n = 0 THEN 1 ELSE n * Fact[n - 1]
Scale == Fact[MaxB]
Slope(e) == Scale * (1 + ((e * e) % 5))
Grad(e, p) == Slope(e) - p
Full(p) == FoldSet(LAMBDA e, s : s + Grad(e, p), 0, 1 .. B)
Micro(k) == {e \in 1 .. B : (e - 1) % m = k}    \* strided
Init == /\ B \in 1 .. MaxB /\ m \in {x \in 1 .. B : B % x = 0}
        /\ step = 0 /\ param = 0 /\ key = <<>> /\ used = <<>>
        /\ i = 0 /\ acc = 0 /\ seen = {}
Accumulate ==
  /\ step < MaxSteps /\ i < m
  /\ used' = Append(used, key \o <<0>>)
  /\ key' = key \o <<1>>
  /\ acc' = acc + FoldSet(LAMBDA e, s : s + Grad(e, param), 0, Micro(i))
  /\ seen' = seen \cup Micro(i)
  /\ i' = i + 1
  /\ UNCHANGED <<B, m, step, param>>
Update ==       \* a step of the size of the mean gradient
  /\ i = m
  /\ param' = param + (acc \div B)
  /\ step' = step + 1
  /\ i' = 0 /\ acc' = 0 /\ seen' = {}
  /\ UNCHANGED <<B, m, key, used>>
Next == Accumulate \/ Update
Spec == Init /\ [][Next]_vars
Whole == i = m => (seen = 1 .. B /\ acc = Full(param))
Fresh == \A a, b \in DOMAIN used : a # b => used[a] # used[b]
(* A key of the state is never one given to the model, nor leads to it.      *)
Secret == \A a \in DOMAIN used : SubSeq(key, 1, Len(used[a])) # used[a]
OneUpdate == [][param' # param => (step' = step + 1 /\ i = m)]_vars
Count == [][step' # step => step' = step + 1]_vars
(* The result does not depend on the number of micro-batches.                *)
SameAsWhole == [][i = m => param' = param + (Full(param) \div B)]_vars
=============================================================================
