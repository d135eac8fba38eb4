-------------------------- MODULE EnsembleLossTrace --------------------------
(* w[b][m][c]: softmax: integer weights, the probabilities being their       *)
(* shares; sigmoid: <<a, b>> with probability a / (a + b).  Observations:    *)
(* exp(-loss) times 10000 with one-hot (softmax) or 0/1 (sigmoid) labels.    *)
EXTENDS TraceLib
S == 10000
Div(a, b) == (2 * a + b) \div (2 * b)          \* rounded
P(r, b, m, c) == IF r.kind = "softmax"
                 THEN Div(S * r.w[b][m][c], SumSeq(r.w[b][m]))
                 ELSE Div(S * r.w[b][m][c][1], r.w[b][m][c][1] + r.w[b][m][c][2])
Mean(r, b, c) == Div(SumSeq([m \in 1 .. r.M |-> P(r, b, m, c)]), r.M)
Term(p, y) == IF y = 1 THEN p ELSE S - p
Prod(s) == FoldSeq(LAMBDA x, y : Div(x * y, S), S, s)
Near(a, b, t) == AbsV(a - b) <= t
Lik(r, b, p(_)) ==     \* exp(-loss) of example b under class probabilities p
  IF r.kind = "softmax" THEN p(CHOOSE c \in 1 .. r.C : r.y[b][c] = 1)
  ELSE Prod([c \in 1 .. r.C |-> Term(p(c), r.y[b][c])])
Losses(r) ==
  Clause(Len(r.train) = r.B * r.M /\ \A b \in 1 .. r.B : \A m \in 1 .. r.M :
           Near(r.train[(b - 1) * r.M + m], Lik(r, b, LAMBDA c : P(r, b, m, c)), 8), "TrainLoss")
  \cup Clause(Len(r.eval) = r.B /\ \A b \in 1 .. r.B :
           Near(r.eval[b], Lik(r, b, LAMBDA c : Mean(r, b, c)), 8), "EvalLoss")
  \cup Clause(Len(r.pred) = r.B /\ \A b \in 1 .. r.B : r.pred[b] + 1 \in 1 .. r.C /\
           \A c \in 1 .. r.C : Mean(r, b, c) <= Mean(r, b, r.pred[b] + 1) + 3, "Prediction")
  \cup Clause(r.M > 1 \/ (r.plain /\ r.plaineval /\ r.plainpred), "OneMember")
(* The loss is linear in the labels (times 1000, given those of every class).*)
Linear(r) ==
  Clause(\A b \in 1 .. r.B :
    Near(r.eval[b] * 4, SumSeq([c \in 1 .. r.C |-> r.y4[b][c] * r.onehot[c][b]]), 40), "EvalLinear")
  \cup Clause(\A i \in 1 .. (r.B * r.M) :
    Near(r.train[i] * 4, SumSeq([c \in 1 .. r.C |-> r.y4[((i - 1) \div r.M) + 1][c] * r.onehott[c][i]]), 40),
    "TrainLinear")
(* Extreme outputs: integer logits l[b][m][c], label class y[b]; losses are  *)
(* finite and between the bounds that follow from the largest ones.          *)
Extreme(r) ==
  LET Gap(b, m) == MaxOf(Range2(r.l[b][m])) - r.l[b][m][r.y[b]]
      Best(b) == MinOf({Gap(b, m) : m \in 1 .. r.M})
  IN  Clause(\A b \in 1 .. r.B : Best(b) - 1 <= r.eval[b] /\ r.eval[b] <= Best(b) + 5, "ExtremeEval")
      \cup Clause(\A b \in 1 .. r.B : \A m \in 1 .. r.M :
             LET v == r.train[(b - 1) * r.M + m] IN Gap(b, m) - 1 <= v /\ v <= Gap(b, m) + 5, "ExtremeTrain")
      \cup Clause(r.zero, "ImpossibleClasses")
FailedClauses(r) ==
  CASE r.op = "losses"  -> Losses(r)
    [] r.op = "linear"  -> Linear(r)
    [] r.op = "extreme" -> Extreme(r)
    [] r.op = "unknown" -> Clause(r.rejected, "UnknownLoss")
    [] OTHER            -> {"Unknown"}
=============================================================================
