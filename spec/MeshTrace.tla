----------------------------- MODULE MeshTrace ------------------------------
EXTENDS TraceLib, MeshRules
Failed(r) ==
  LET n   == IF r.kind = "parts" THEN 0 ELSE IF r.n > Prod(r.hs) THEN Prod(r.hs) ELSE r.n
      ps  == IF r.kind = "parts" THEN r.ps ELSE Auto(n, r.hs)
      can == Possible(ps, r.hs) /\ (n = 0 \/ Prod(ps) = n)
      M   == r.mesh
  IN  IF ~can THEN Clause(r.rejected, "ImpossibleAccepted")
      ELSE IF r.rejected THEN Clause(~Tileable(ps, r.hs, r.ls), "PossibleRejected")
      ELSE IF ~ShapeOk(M, ps, r.hs) THEN {"Shape"}
      ELSE Clause(r.axes = <<"expert", "replica">>, "AxisNames")
           \cup Clause(EachOnce(M, r.hs), "EachDeviceOnce")
           \cup Clause(Blocks(M, ps, r.hs), "PartsOfTheHardware")
           \cup Clause(Tileable(ps, r.hs, r.ls) => Contiguous(M, r.ls), "ProcessContiguous")
           \cup Clause(r.same, "SameOnAllProcesses")
FailedClauses(r) == Failed(r)
=============================================================================
