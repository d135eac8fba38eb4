--------------------------- MODULE EnsembleTrace ---------------------------
EXTENDS TraceLib
R == INSTANCE RoutingTrace
N == INSTANCE Ensemble WITH M <- 1, Em <- 1, T <- 1, K <- 1, C <- 1, BPR <- FALSE,
       MaxGate <- 1, gate <- <<>>, choice <- <<>>, order <- <<>>, pos <- 0, buf <- <<>>

Near(a, b, tol) == /\ DOMAIN a = DOMAIN b
                   /\ \A i \in DOMAIN a : AbsV(a[i] - b[i]) <= tol
Route(r) ==
  LET pairs == {<<p[1], p[2]>> : p \in Range2(r.placed)}
      g == N!FullGates(r.w, r.M, r.Em)
  IN  Clause(N!Foreign(pairs, r.M, r.Em) = {}, "RoutedToAnotherMember")
      \cup R!FailedClauses([gates |-> g] @@ r)
FailedClauses(r) ==
  CASE r.op = "route" -> Route(r)
    [] r.op = "member" ->
         Clause(Len(r.alone) = r.B /\ Len(r.ens) = r.B * r.M, "Rows")
         \cup Clause(Len(r.ens) # r.B * r.M \/
                \A b \in 1..r.B : Near(r.ens[(b - 1) * r.M + r.m], r.alone[b], r.tol),
                "MemberDiffersFromItsOwnModel")
         \cup Clause(Near(r.aux, r.auxalone, r.tol), "LossesOfMember")
    [] r.op = "noise" -> Clause(r.distinct * 10 >= 9 * r.total, "NoiseShared")
    [] r.op = "reject" -> Clause(r.rejected, "Accepted-" \o r.what)
    [] OTHER -> {"UnknownRecord"}
=============================================================================
