--------------------------- MODULE MoeLayerTrace ---------------------------
EXTENDS TraceLib
M == INSTANCE MoeLayer WITH Seqs <- 1, Length <- 1, Size <- 1, Blocks <- 1, pos <- 0,
       groups <- <<>>, block <- 0, layers <- {}, moe <- {}, loss <- {}
Near(a, b, tol) == /\ DOMAIN a = DOMAIN b
                   /\ \A i \in DOMAIN a : AbsV(a[i] - b[i]) <= tol
Flat(m) == FoldSeq(LAMBDA x, acc : acc \o x, <<>>, m)
Layer(r) ==
  LET divides == Len(r.x) % r.size = 0 IN
  Clause(r.rejected = ~ divides, "GroupSizeMustDivide")
  \cup (IF ~ divides \/ r.rejected THEN {} ELSE
        Clause(\A i \in DOMAIN r.x :
                 r.out[i] = M!Out(i, r.x[i], r.size, r.route, r.a, r.b), "Output")
        \cup Clause(r.shape = r.want, "Shape"))
\* sin and cos of 0..5 in 1/10000.
Sin == <<0, 8415, 9093, 1411, -7568, -9589>>
Cos == <<10000, 5403, -4161, -9900, -6536, 2837>>
Pos(r) ==
  LET q == r.c \div 4      \* columns: sin x, cos x, sin y, cos y
      Row(i) == (i - 1) \div r.w
      Col(i) == (i - 1) % r.w
      pe == r.pe
      At(i, k) == pe[i + r.cls][k]
  IN  Clause(\A i \in 1..(r.h * r.w) :
        /\ AbsV(At(i, 1) - Sin[Col(i) + 1]) <= 5
        /\ AbsV(At(i, q + 1) - Cos[Col(i) + 1]) <= 5
        /\ AbsV(At(i, 2 * q + 1) - Sin[Row(i) + 1]) <= 5
        /\ AbsV(At(i, 3 * q + 1) - Cos[Row(i) + 1]) <= 5, "FirstFrequency")
      \* The last frequency is 1 / temperature; r.t = 10000 / temperature.
      \cup Clause(\A i \in 1..(r.h * r.w) :
        /\ AbsV(At(i, q) - Col(i) * r.t) <= 5
        /\ AbsV(At(i, 3 * q) - Row(i) * r.t) <= 5, "LastFrequency")
      \cup Clause(\A i \in 1..r.cls : \A k \in 1..r.c : pe[i][k] = 0, "ClassTokenHasPosition")
      \cup Clause(\A i, j \in 1..(r.h * r.w) : \A k \in 1..r.c :
        (IF k <= 2 * q THEN Col(i) = Col(j) ELSE Row(i) = Row(j)) =>
           AbsV(At(i, k) - At(j, k)) <= 1, "Grid")
FailedClauses(r) ==
  CASE r.op = "layer" -> Layer(r)
    [] r.op = "layers" ->
         Clause(Range2(r.moe) = Range2(r.layers) \cap 0..(r.n - 1), "MoeLayers")
         \cup Clause(Range2(r.dense) = (0..(r.n - 1)) \ Range2(r.layers), "DenseLayers")
         \cup Clause(Range2(r.metrics) = Range2(r.moe), "MetricsPerLayer")
         \cup Clause(\A g \in DOMAIN r.total :
                AbsV(r.total[g] - SumSeq([k \in DOMAIN r.losses |-> r.losses[k][g]])) <= 5,
                "TotalAuxiliaryLoss")
    [] r.op = "equal" -> Clause(Near(Flat(r.a), Flat(r.b), r.tol), r.what)
    [] r.op = "differ" -> Clause(~ Near(Flat(r.a), Flat(r.b), r.tol), r.what)
    [] r.op = "pos" -> Pos(r)
    [] r.op = "flag" -> Clause(r.got = r.want, r.what)
    [] r.op = "reject" -> Clause(r.rejected, "Accepted-" \o r.what)
    [] OTHER -> {"UnknownRecord"}
=============================================================================
