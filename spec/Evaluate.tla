------------------------------ MODULE Evaluate -------------------------------
(* Evaluating a model on data sets, again and again while it is trained.     *)
(* Data set d is a sequence of batches of positions; a position is valid or  *)
(* padding.  The loss and the correctness of position x under parameters v   *)
(* are arbitrary: here V(v, x), whatever padding contains.                   *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt
CONSTANTS Rows, MaxBatches, MaxStep, Every
VARIABLES data,       \* batches: sequences of BOOLEAN (valid)
          v, step,    \* parameters (changed by training), steps done
          pos, num, sum,   \* evaluation in progress (pos = 0: none)
          seed,       \* position in the chain of random keys
          log         \* results: [step, v, num, sum, seeds]
vars == <<data, v, step, pos, num, sum, seed, log>>
V(vv, b, i) == vv * 7 + b * 3 + i * i + 1
Batches == [1 .. Rows -> BOOLEAN]
AnyValid(d) == \E b \in DOMAIN d : \E i \in 1 .. Rows : d[b][i]
Init == /\ data \in {d \in UNION {[1 .. k -> Batches] : k \in 1 .. MaxBatches} : AnyValid(d)}
        /\ v = 0 /\ step = 0 /\ pos = 0 /\ num = 0 /\ sum = 0 /\ seed = 0 /\ log = <<>>
Due == Every > 0 /\ step % Every = 0 /\ step > 0 /\ (IF log = <<>> THEN TRUE ELSE log[Len(log)].step # step)
Train == /\ pos = 0 /\ ~ Due /\ step < MaxStep
         /\ step' = step + 1 /\ v' = v + 1 /\ UNCHANGED <<data, pos, num, sum, seed, log>>
Start == /\ pos = 0 /\ Due
         /\ pos' = 1 /\ num' = 0 /\ sum' = 0 /\ seed' = 0
         /\ UNCHANGED <<data, v, step, log>>
Sum(S, f(_)) == FoldSet(LAMBDA x, y : f(x) + y, 0, S)
Valid(b) == {i \in 1 .. Rows : data[b][i]}
Step == /\ pos \in 1 .. Len(data)
        /\ num' = num + Cardinality(Valid(pos))
        /\ sum' = sum + Sum(Valid(pos), LAMBDA i : V(v, pos, i))
        /\ pos' = pos + 1 /\ seed' = seed + 1
        /\ UNCHANGED <<data, v, step, log>>
Report == /\ pos = Len(data) + 1
          /\ log' = Append(log, [step |-> step, v |-> v, num |-> num, sum |-> sum, seeds |-> seed])
          /\ pos' = 0 /\ UNCHANGED <<data, v, step, num, sum, seed>>
Next == Train \/ Start \/ Step \/ Report
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
All == {<<b, i>> : b \in DOMAIN data, i \in 1 .. Rows}
ExactlyOnce == \A k \in DOMAIN log :
   /\ log[k].num = Cardinality({x \in All : data[x[1]][x[2]]})
   /\ log[k].sum = Sum({x \in All : data[x[1]][x[2]]}, LAMBDA x : V(log[k].v, x[1], x[2]))
SameSeeds == \A k \in DOMAIN log : log[k].seeds = Len(data)
CurrentParams == \A k \in DOMAIN log : log[k].v = log[k].step
WhenDue == {log[k].step : k \in DOMAIN log} \subseteq {s \in 1 .. MaxStep : s % Every = 0}
Ends == <>(step = MaxStep /\ {log[k].step : k \in DOMAIN log} = {s \in 1 .. MaxStep : s % Every = 0})
=============================================================================
