-------------------------- MODULE RouterLossTrace --------------------------
EXTENDS TraceLib
L == INSTANCE RouterLoss WITH E <- 1, W <- 1, MaxItems <- 1, n <- 0,
       imp <- <<>>, first <- <<>>
K4 == 10000
\* |got / 10^4 - num / den| <= tol / 10^4
Near(got, q, tol) == AbsV(got * q[2] - q[1] * K4) <= tol * q[2]
Columns(m) == [e \in DOMAIN m[1] |-> SumSeq([s \in DOMAIN m |-> m[s][e]])]
Firsts(m) == [e \in DOMAIN m[1] |-> Cardinality({s \in DOMAIN m : L!Best(m[s]) = e})]

Losses(r) ==
  LET imp == Columns(r.w)
      S == Len(r.w)
      W == SumSeq(r.w[1])
      obs == Columns(r.gates)
      aux == SumSeq([i \in DOMAIN r.weights |->
               IF r.weights[i] > 0 THEN (r.weights[i] * r.parts[i]) \div 2 ELSE 0])
  IN  Clause(r.noisy \/ \A s \in DOMAIN r.w : \A e \in DOMAIN r.w[s] :
               AbsV(r.gates[s][e] * W - r.w[s][e] * 1000) <= 2 * W, "Gates")
      \cup Clause(\A s \in DOMAIN r.gates : AbsV(SumSeq(r.gates[s]) - 1000) <= 4,
                  "GatesSumToOne")
      \cup Clause(Near(r.importance, L!CV2(imp), 20), "Importance")
      \cup Clause(Near(r.gshard, L!Gshard(Firsts(r.gates), obs, S, 1000), 60), "Gshard")
      \cup Clause(AbsV(r.aux - aux) <= 5, "WeightedSum")

Load(r) ==
  LET x == [e \in DOMAIN r.upper |-> (2 * r.upper[e] + r.last[e]) \div 8]
      q == L!CV2(x)
      want == (q[1] * 100) \div (q[2] \div 100)
  IN  Clause(AbsV(r.load - want) <= 300 + want \div 12, "Load")

Win(r) ==
  LET row == CHOOSE t \in L!WinTable : t.l = r.l /\ t.K = r.K
      q == L!CV2(row.p)
      want == (q[1] * 100) \div (q[2] \div 100)
  IN  Clause(AbsV(r.load - want) <= 100 + want \div 15, "LoadProbability")

Noise(r) ==
  LET N == Len(r.d)
      \* 2 (100 std / E)^2, std given in tenths
      want == (2 * 100 * r.std * r.std) \div (r.E * r.E)
      got == SumSeq([i \in 1..N |-> r.d[i] * r.d[i]]) \div N
  IN  Clause(AbsV(got - want) <= want \div 4, "NoiseScale")
      \cup Clause(AbsV(SumSeq(r.d)) * (AbsV(SumSeq(r.d)) \div N) <= 25 * want + N,
                  "NoiseCentred")
      \cup Clause(Cardinality(Range2(r.d)) * 10 >= r.mindistinct, "NoiseVaries")
      \cup Clause(r.samekey /\ r.freshkey, "NoiseFollowsKey")

FailedClauses(r) ==
  CASE r.op = "losses" -> Losses(r)
    [] r.op = "load" -> Load(r)
    [] r.op = "win" -> Win(r)
    [] r.op = "noise" -> Noise(r)
    [] r.op = "det" ->
         Clause(r.error = "", "DeterministicNeedsNoRng")
         \cup Clause(r.gates = r.again /\ r.gates = r.zerostd, "Deterministic")
    [] r.op = "reject" -> Clause(r.rejected, "Accepted-" \o r.what)
    [] r.op = "same" -> Clause(r.same, "NoiseDependsOnK")
    [] r.op = "zero" -> Clause(r.aux = 0, "ExpertChoiceHasNoLoss")
    [] OTHER -> {"UnknownRecord"}
=============================================================================
