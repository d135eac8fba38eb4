--------------------------- MODULE CkptNamesTrace ---------------------------
EXTENDS TraceLib
N == INSTANCE CkptNames WITH Steps <- {}, NShards <- 1, Keep <- FALSE,
       dir <- {}, job <- 0, lastgood <- 0

Listing(r) ==
  LET D == Range2(r.files)
      S == Range2(r.suffixes)
      C == N!CompleteSteps(D, r.prefix, S)
  IN  Clause(r.error = "", "Raises")
      \cup Clause(Range2(r.up) = C /\ Len(r.up) = Cardinality(C)
                  /\ \A i \in 1..(Len(r.up) - 1) : r.up[i] < r.up[i + 1],
                  "CompleteSteps")
      \cup Clause(Len(r.down) = Len(r.up)
                  /\ \A i \in DOMAIN r.down : r.down[i] = r.up[Len(r.up) + 1 - i],
                  "Decreasing")
      \cup Clause(r.latest = N!LatestStep(D, r.prefix, S), "Latest")
      \cup Clause(r.latest = -1 \/ r.latest_path_ok, "LatestPath")

Removal(r) ==
  Clause(Range2(r.left) = Range2(r.before) \ (Range2(r.given) \cap Range2(r.selected)),
         "RemovesExactly")
  \cup Clause(r.error = "", "Raises")

FailedClauses(r) ==
  CASE r.op = "list" -> Listing(r)
    [] r.op = "remove" -> Removal(r)
    [] r.op = "suffix" -> Clause(r.back = r.path, "SuffixInverse")
                          \cup Clause(r.noop = r.path, "SuffixNoop")
    [] OTHER -> {"UnknownRecord"}
=============================================================================
