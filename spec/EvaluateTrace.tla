---------------------------- MODULE EvaluateTrace ----------------------------
EXTENDS TraceLib
(* One call of the action at a step: for every data set the results of its   *)
(* examples under the parameters of that call -- <<valid, loss, correct>> -- *)
(* and what was written, the means multiplied by the number of valid         *)
(* examples and by 100.                                                      *)
Valid(d) == SelectSeq(d.examples, LAMBDA e : e[1] = 1)
Close(a, b) == AbsV(a - b) <= 2 + (AbsV(b) \div 100000)
DataSet(d) ==
  LET ok == Valid(d) IN
  Clause(Close(d.loss, 100 * SumSeq([i \in DOMAIN ok |-> ok[i][2]])), "MeanLoss")
  \cup Clause(Close(d.prec, 100 * SumSeq([i \in DOMAIN ok |-> ok[i][3]])), "MeanCorrect")
Due(r) == (r.every > 0 /\ r.step % r.every = 0) \/ r.step \in Range2(r.on)
Call(r) ==
  Clause(r.ran = Due(r), "WhenDue")
  \cup Clause(~ r.ran => Len(r.sets) = 0, "NothingOtherwise")
  \cup Clause(r.ran => Len(r.sets) = r.nsets /\ r.wstep = r.step, "AllSets")
  \cup Clause(r.ran => r.extra, "Extra")
  \cup UNION {DataSet(r.sets[i]) : i \in DOMAIN r.sets}
  \cup Clause(r.untouched, "ParamsUntouched")
(* draws: per evaluation, the values drawn from the random keys, by batch.   *)
Rng(r) ==
  Clause(\A k \in DOMAIN r.draws : r.draws[k] = r.draws[1], "SameKeysEveryTime")
  \cup Clause(\A k \in DOMAIN r.draws : Cardinality(Range2(r.draws[k])) = r.batches
                                        /\ Len(r.draws[k]) = r.batches, "FreshKeysPerBatch")
(* One step in isolation: sums of one batch added to an accumulator.         *)
FailedClauses(r) ==
  CASE r.op = "call" -> Call(r)
    [] r.op = "rng"  -> Rng(r)
    [] OTHER         -> {"Unknown"}
=============================================================================
