--------------------------- MODULE TrainLoopTrace ----------------------------
EXTENDS TraceLib, TrainRules
(* r.runs: per process: before (complete checkpoints found), batches and     *)
(* params (of every update: number of the batch, fingerprint of the          *)
(* parameters it was computed with), steps (reported), evals, after          *)
(* (complete checkpoints left), killed.  r.truth: fingerprints by step of a  *)
(* process that was never killed.                                            *)
Resume(run) == IF Len(run.before) = 0 THEN 0 ELSE MaxIn(Range2(run.before))
Expected(r, run) ==     \* checkpoints after the process has seen step s
  LET last == Resume(run) + Len(run.batches)
      from == Range2(run.before)
      first == IF from = {} THEN {0} ELSE from
      RECURSIVE Fold(_, _)
      Fold(D, s) == IF s > last THEN D
                    ELSE Fold(IF DueAt(s, r.every) THEN Kept(D \cup {s}, r.keep, r.mult) ELSE D, s + 1)
      D == Fold(Kept(first, r.keep, r.mult), Resume(run) + 1)
  IN  IF run.killed THEN D ELSE IF r.T \in D THEN D ELSE Kept(D \cup {r.T}, r.keep, r.mult)
Run(r, run) ==
  LET n == Len(run.batches)  f == Resume(run) IN
  \* Progress is not reported for the first step of a process.
  Clause(\A i \in DOMAIN run.steps : run.steps[i] = f + i + 1, "StepsReported")
  \cup Clause(Len(run.steps) \in {n - 1} \cup (IF run.killed \/ n = 0 THEN {n - 2, 0} ELSE {}), "AllReported")
  \cup Clause(run.killed \/ f + n = r.T, "ToTheEnd")
  \cup Clause(n = 0 \/ f + n <= r.T, "NotFurther")
  \cup Clause(run.batches = [i \in 1 .. n |-> i], "BatchesInOrder")
  \cup Clause(\A i \in 1 .. n : run.params[i] = r.truth[f + i], "SameAsUninterrupted")
  \cup Clause(LET E == Range2(run.evals)
                  due == {s \in (f + 1) .. (f + n) : s = f + 1 \/ s = r.T \/ s % r.evalevery = 0}
              IN  IF run.killed THEN E \subseteq due /\ {s \in due : s < f + n} \subseteq E
                  ELSE E = due, "Evaluations")
  \cup (IF run.killed
        THEN \* the last saving may not have been completed, or not begun
             Clause(LET A == Range2(run.after) IN
                    A = Range2(run.before) \/ A = {}
                    \/ (MaxIn(A) \in 0 .. (f + n) /\ (MaxIn(A) = 0 \/ MaxIn(A) = f \/ DueAt(MaxIn(A), r.every)
                                                      \/ MaxIn(A) = r.T)), "SavedOnSchedule")
             \* What is kept is removed later than the new one is in place.
             \cup Clause(~ run.settled \/
                    \E k \in {n, n - 1} : k >= 0 /\
                      LET E == Expected(r, [run EXCEPT !.batches = SubSeq(@, 1, k)])
                          A == Range2(run.after)
                      IN  E \subseteq A /\ MaxIn(A) = MaxIn(E), "SavedUpToTheKill")
        ELSE \* What an earlier process did not get to remove is removed with
             \* the next saving, but for one whose writing was interrupted.
             Clause(LET A == Range2(run.after)  E == Expected(r, run) IN
                    (E \subseteq A /\ MaxIn(A) = r.T /\ A \ E \subseteq Range2(r.torn))
                    \/ (n = 0 /\ run.after = run.before /\ r.T \in Range2(run.before)), "SavedAndKept"))
Chain(r) == Clause(\A i \in 1 .. (Len(r.runs) - 1) : r.runs[i + 1].before = r.runs[i].left, "SameDisk")
History(r) ==
  UNION {Run(r, r.runs[i]) : i \in DOMAIN r.runs} \cup Chain(r)
  \cup Clause(r.final = r.truthfinal, "SameFinalState")
  \cup Clause(r.again.steps = <<>> /\ r.again.after = r.runs[Len(r.runs)].after
              /\ r.again.final = r.truthfinal, "FinishedStaysFinished")
Steps(r) ==
  LET both == r.steps > 0 /\ r.epochs4 > 0
      neither == r.steps = 0 /\ r.epochs4 = 0
  IN  Clause(r.rejected = (both \/ neither), "ExactlyOne")
      \cup IF r.rejected THEN {}
           ELSE LET n == IF r.steps > 0 THEN r.steps
                         ELSE ((r.epochs4 * r.examples) + (4 * r.batch) - 1) \div (4 * r.batch)
                IN  Clause(r.got = n, "StepsFromEpochs")
                    \cup Clause(AbsV(r.gotepochs * r.examples - n * r.batch * 1000) <= r.examples, "Epochs")
FailedClauses(r) ==
  CASE r.op = "history" -> History(r)
    [] r.op = "steps"   -> Steps(r)
    [] OTHER            -> {"Unknown"}
=============================================================================
