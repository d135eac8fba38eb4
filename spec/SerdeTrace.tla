----------------------------- MODULE SerdeTrace -----------------------------
(* Trees are compared as token sequences: container openings with their      *)
(* keys, and for each leaf its kind, dtype, shape and bits.                  *)
EXTENDS TraceLib
FailedClauses(r) ==
  CASE r.op = "tree" ->
         Clause(r.error = "", "Raises")
         \cup Clause(r.error /= "" \/ r.state_got = r.state, "StateDict")
         \cup Clause(r.error /= "" \/ r.tree_got = r.tree, "TargetTree")
         \cup Clause(r.after = r.tree, "InputModified")
    [] r.op = "chunks" ->
         Clause(r.error = "", "Raises")
         \cup Clause(r.got = r.want, "Chunks")
    [] r.op = "reject" -> Clause(r.rejected, "Accepted-" \o r.what)
    [] OTHER -> {"UnknownRecord"}
=============================================================================
