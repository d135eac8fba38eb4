--------------------------- MODULE TrainStepTrace ----------------------------
EXTENDS TraceLib
(* Linear models with quadratic losses: logits = x W, loss = |logits - y|^2/2 *)
(* plus, if r.aux, |logits|^2/4.  Optimizer: trace t' = t/2 + g, step t'/16.  *)
(* Parameters and traces are times S.                                        *)
S == 4096
Dims(W) == {<<d, k>> : d \in DOMAIN W, k \in DOMAIN W[1]}
Logit(W, x, k) == SumSeq([d \in DOMAIN x |-> x[d] * W[d][k]])
(* Twice the sum of the gradients, times S.                                  *)
Grad(s, r, d, k) ==
  SumSeq([i \in DOMAIN s.x |->
    LET z == Logit(s.before, s.x[i], k)
    IN  s.x[i][d] * ((2 * (z - (S * s.y[i][k]))) + (IF r.aux = "none" THEN 0 ELSE z))])
Near(a, b, tol) == AbsV(a - b) <= tol
Step(r, s) ==
  LET B == Len(s.x)
      Sq(f(_)) == SumOver(Dims(s.before), LAMBDA dk : f(dk) * f(dk))
      (* Integers: exact. *)
      P(d, k) == s.before[d][k] \div S
      Loss2 == SumSeq([i \in 1 .. B |-> SumSeq([k \in 1 .. Len(s.y[1]) |->
                 LET z == Logit(s.before, s.x[i], k) \div S IN (z - s.y[i][k]) * (z - s.y[i][k])])])
      Aux4 == IF r.aux = "none" THEN 0
              ELSE SumSeq([i \in 1 .. B |-> SumSeq([k \in 1 .. Len(s.y[1]) |->
                 LET z == Logit(s.before, s.x[i], k) \div S IN z * z])])
  IN  Clause(s.n = s.n0 + 1, "CountsOne")
      \cup UNION {LET d == q[1]  k == q[2]
                      g2 == Grad(s, r, d, k)           \* 2 B S g
                      t == s.trace[d][k]
                      t1 == s.trace1[d][k]
                  IN  Clause(Near(2 * B * (2 * t1 - t), 2 * g2, 16 * B * 4), "MeanGradient")
                      \cup Clause(Near(16 * (s.before[d][k] - s.after[d][k]), t1, 32), "OneUpdate")
                 : q \in Dims(s.before)}
      \cup (IF ~ s.exact THEN {}
            ELSE Clause(Near(s.main * 2 * B, Loss2 * 1000, 2 * B), "MeanLoss")
                 \cup Clause(r.aux = "none" \/ Near(s.auxm * 4 * B, Aux4 * 1000, 4 * B), "AuxiliaryLoss")
                 \cup Clause(Near(s.metric * B, 1000 * SumSeq([i \in 1 .. B |-> s.x[i][1]]), B), "Metrics"))
      \cup Clause(Near(s.total, s.main + (IF r.aux = "none" THEN 0 ELSE s.auxm), 3), "TotalLoss")
      \cup Clause(LET u2 == Sq(LAMBDA q : s.before[q[1]][q[2]] - s.after[q[1]][q[2]])
                  IN  AbsV(s.unorm2 - u2) <= 16 + (u2 \div 200) + (4 * MaxOf({AbsV(s.before[q[1]][q[2]] - s.after[q[1]][q[2]]) : q \in Dims(s.before)})), "UpdateNorm")
      \cup Clause(LET g(q) == Grad(s, r, q[1], q[2]) \div (2 * B * 16)      \* S g / 16
                      g2 == Sq(g)
                      m == MaxOf({AbsV(g(q)) : q \in Dims(s.before)})
                  IN  AbsV(s.gnorm2 - g2) <= 16 + (16 * m) + (g2 \div 200), "GradientNorm")
      \cup Clause(LET p(q) == s.after[q[1]][q[2]] \div 16
                      p2 == Sq(p)
                      m == MaxOf({AbsV(p(q)) : q \in Dims(s.before)})
                  IN  AbsV(s.pnorm2 - p2) <= 32 + (12 * m), "ParameterNorm")
      \cup Clause(s.repeat, "Deterministic")
History(r) ==
  LET used == [i \in DOMAIN r.seq |-> r.seq[i].used]    \* per step: per micro-batch: per name
      all == {<<i, j, n>> : i \in DOMAIN used, j \in 1 .. (IF r.micro = 0 THEN 1 ELSE r.micro), n \in {1, 2}}
      states == {<<i, n>> : i \in 1 .. (Len(r.seq) + 1), n \in {1, 2}}
      KeyOf(q) == IF q[1] <= Len(r.seq) THEN r.seq[q[1]].keys[q[2]] ELSE r.seq[Len(r.seq)].keys1[q[2]]
  IN  UNION {Step(r, r.seq[i]) : i \in DOMAIN r.seq}
      \cup Clause(\A i \in DOMAIN used : Len(used[i]) = (IF r.micro = 0 THEN 1 ELSE r.micro), "DrawsPerMicroBatch")
      \cup Clause(\A i \in DOMAIN used : Len(used[i]) = (IF r.micro = 0 THEN 1 ELSE r.micro)
                  => Cardinality({used[q[1]][q[2]][q[3]] : q \in {z \in all : z[1] = i}})
                     = Cardinality({z \in all : z[1] = i}), "FreshInStep")
      \cup Clause((\A i \in DOMAIN used : Len(used[i]) = (IF r.micro = 0 THEN 1 ELSE r.micro))
                  => Cardinality({used[q[1]][q[2]][q[3]] : q \in all}) = Cardinality(all), "FreshInHistory")
      \cup Clause(Cardinality({KeyOf(q) : q \in states}) = Cardinality(states), "KeysMoveOn")
FailedClauses(r) ==
  CASE r.op = "history" -> Clause(r.per % (IF r.micro = 0 THEN 1 ELSE r.micro) = 0, "Rejects") \cup History(r)
    [] r.op = "reject"  -> Clause(r.micro > 0 /\ r.per % r.micro # 0, "Accepts")
    [] OTHER            -> {"Unknown"}
=============================================================================
