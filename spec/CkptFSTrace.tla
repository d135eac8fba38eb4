---------------------------- MODULE CkptFSTrace ----------------------------
(* Judges what is on disk after a crash or fault of a real save.             *)
EXTENDS TraceLib
All(s, x) == \A i \in DOMAIN s : s[i] = x

AfterFault(r) ==
  Clause(\A i \in DOMAIN r.after : r.after[i] \in {r.before[i], "new"}, "Atomic")
  \cup Clause(r.outcome = "ok" => All(r.after, "new"), "SuccessMeansSaved")
  \cup Clause(r.mode = "none" => r.outcome = "ok", "SavesWithoutFaults")
  \cup Clause(r.latest = r.step =>
                 \/ All(r.after, "new")
                 \/ All(r.before, "old") /\ Len(r.before) = 1, "ReportedMeansAll")
  \cup Clause(r.latest \in {r.older, r.step}, "LatestIsKnown")
  \cup Clause(r.outcome = "ok" => r.latest = r.step, "SavedIsReported")
  \cup Clause(r.bystander, "OtherFilesUntouched")
  \cup Clause(All(r.again, "new") /\ r.again_latest = r.step, "CanSaveAgain")

FailedClauses(r) ==
  CASE r.op = "fault" -> AfterFault(r)
    [] r.op = "isolated" -> Clause(r.got = r.want, "Isolated-" \o r.how)
    [] r.op = "refused" -> Clause(r.raised, "OverwriteRefused")
                           \cup Clause(r.content = "old", "OldKept")
                           \cup Clause(r.latest = r.step, "OldStillFound")
    [] OTHER -> {"UnknownRecord"}
=============================================================================
