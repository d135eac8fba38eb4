---------------------------- MODULE SoftMoETrace ----------------------------
(* ld[t][s] and lc[t][s] are logarithms (in 1/1000) of the observed dispatch *)
(* and combine weights of one group, d and c the weights in 1/1000.          *)
EXTENDS TraceLib
M == INSTANCE SoftMoE WITH T <- 1, S <- 1, A <- 1, X <- 1, a <- <<>>, x <- <<>>,
       out <- <<>>, pc <- ""
Score(r, t, s) == r.scale * M!Cos(r.x[t], r.mu[s], 1000)
Means(S, f(_)) == M!SumF(S, f) \div Cardinality(S)
Soft(r) ==
  LET T == DOMAIN r.x
      S == DOMAIN r.mu
      want == [t \in T |-> [s \in S |-> Score(r, t, s)]]
      cosmu == [p \in {q \in S \X S : q[1] # q[2]} |->
                  M!Cos(r.mu[p[1]], r.mu[p[2]], 1000)]
  IN  Clause(r.slots = (IF r.P > 0 THEN r.P ELSE M!Slots(r.T, r.E, r.cf, 4)), "Slots")
      \cup Clause(\A s \in S : AbsV(SumSeq([t \in T |-> r.d[t][s]]) - 1000) <= 12, "DispatchSumsToOne")
      \cup Clause(\A t \in T : AbsV(SumSeq(r.c[t]) - 1000) <= 12, "CombineSumsToOne")
      \cup Clause(\A s \in S : \A t \in T :
            AbsV((r.ld[t][s] - r.ld[1][s]) - (want[t][s] - want[1][s])) <= r.tol, "DispatchScores")
      \cup Clause(\A t \in T : \A s \in S :
            AbsV((r.lc[t][s] - r.lc[t][1]) - (want[t][s] - want[t][1])) <= r.tol, "CombineScores")
      \cup Clause(r.foreign = 0, "GroupsMix")
Stats(r) ==     \* all groups together
  LET rows == r.c   cols == r.dT IN
  Clause(AbsV(r.cmin - Means(DOMAIN rows, LAMBDA i : MinOf(Range2(rows[i])))) <= 6
         /\ AbsV(r.cmax - Means(DOMAIN rows, LAMBDA i : MaxOf(Range2(rows[i])))) <= 6
         /\ AbsV(r.dmin - Means(DOMAIN cols, LAMBDA i : MinOf(Range2(cols[i])))) <= 6
         /\ AbsV(r.dmax - Means(DOMAIN cols, LAMBDA i : MaxOf(Range2(cols[i])))) <= 6,
         "WeightStatistics")
  \cup Clause(r.aux = 0, "AuxiliaryLoss")
  \cup (LET pairs == {p \in (DOMAIN r.mu) \X (DOMAIN r.mu) : p[1] # p[2]}
            f(p) == M!Cos(r.mu[p[1]], r.mu[p[2]], 1000)
        IN  IF pairs = {} THEN {} ELSE
            Clause(AbsV(r.smin - MinOf({f(p) : p \in pairs})) <= 6
                   /\ AbsV(r.smax - MaxOf({f(p) : p \in pairs} \cup {0})) <= 6
                   /\ AbsV(r.smean - Means(pairs, f)) <= 6, "SlotSimilarity"))
Noise(r) ==
  LET T == DOMAIN r.ld   S == DOMAIN r.ld[1]
      dd(m, t, s) == (m[t][s] - m[1][s]) - (m[t][1] - m[1][1])
      N == r.n
  IN  Clause(\A t \in T, s \in S : AbsV(dd(r.ld, t, s) - dd(r.lc, t, s)) <= 60, "NoiseNotShared")
FailedClauses(r) ==
  CASE r.op = "soft" -> Soft(r)
    [] r.op = "stats" -> Stats(r)
    [] r.op = "noise" -> Noise(r)
    [] r.op = "scale" ->   \* mean square of double differences: 4 std^2
         Clause(AbsV(r.got - 4 * r.std * r.std) <= r.std * r.std, "NoiseScale")
    [] r.op = "same" -> Clause(r.same, r.what)
    [] OTHER -> {"UnknownRecord"}
=============================================================================
