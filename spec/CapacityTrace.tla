---------------------------- MODULE CapacityTrace ---------------------------
EXTENDS TraceLib, CapacityRules
\* One record: a row of observations, factors num/den for num = 1..Len(got);
\* the selected experts multiply the tokens (sel = 1 when experts choose).
FailedClauses(r) ==
  CASE r.op = "row" ->
         Clause(\A n \in DOMAIN r.got :
                  r.got[n] \in CapacityOf(r.tokens * r.sel, r.experts, n,
                                          r.den, r.mode, r.mult),
                "Capacity-" \o r.via)
    [] r.op = "default" ->
         Clause(r.got \in CapacityOf(r.tokens * r.sel, r.experts, r.num, r.den,
                                     r.mode, r.mult), "Default-" \o r.via)
    [] r.op = "given" ->
         Clause(r.got = r.capacity, "ExplicitCapacity-" \o r.via)
    [] r.op = "reject" -> Clause(r.rejected, "Rejected-" \o r.via)
    [] OTHER -> {"UnknownRecord"}
=============================================================================
