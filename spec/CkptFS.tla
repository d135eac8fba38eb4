------------------------------- MODULE CkptFS -------------------------------
(* Saving a checkpoint made of several files, each written to a temporary    *)
(* file which is then renamed.  Writers interleave freely; the process may   *)
(* be killed between (and inside) operations, any operation may fail, and    *)
(* after a failure or a crash the save may be run again.  The arrays being   *)
(* saved live in device buffers which the training loop reuses as soon as    *)
(* the asynchronous save has been started.                                   *)
EXTENDS Integers, FiniteSets, TLC

CONSTANTS Files,        \* files of the checkpoint
          Overwrite,    \* BOOLEAN: a checkpoint of the same step exists
          MaxFaults     \* crashes and failed operations in a history

VARIABLES pc,           \* writer of each file: idle, open, half, full, done, err
          tmp,          \* temporary file: none, or what it holds
          fin,          \* final file: absent, old, new
          buf,          \* device buffer: new, then reused
          snap,         \* host copy taken when the save was started
          status,       \* running, ok, failed, crashed
          faults
vars == <<pc, tmp, fin, buf, snap, status, faults>>

Init == /\ pc = [f \in Files |-> "idle"]
        /\ tmp = [f \in Files |-> "none"]
        /\ fin = [f \in Files |-> IF Overwrite THEN "old" ELSE "absent"]
        /\ buf = "new" /\ snap = "new"
        /\ status = "running" /\ faults = 0

Running == status = "running"
Open(f) == /\ Running /\ pc[f] = "idle"
           /\ pc' = [pc EXCEPT ![f] = "open"]
           /\ tmp' = [tmp EXCEPT ![f] = "partial"]
           /\ UNCHANGED <<fin, buf, snap, status, faults>>
Half(f) == /\ Running /\ pc[f] = "open"
           /\ pc' = [pc EXCEPT ![f] = "half"]
           /\ UNCHANGED <<tmp, fin, buf, snap, status, faults>>
Close(f) == /\ Running /\ pc[f] = "half"
            /\ pc' = [pc EXCEPT ![f] = "full"]
            /\ tmp' = [tmp EXCEPT ![f] = snap]
            /\ UNCHANGED <<fin, buf, snap, status, faults>>
Rename(f) == /\ Running /\ pc[f] = "full"
             /\ pc' = [pc EXCEPT ![f] = "done"]
             /\ fin' = [fin EXCEPT ![f] = tmp[f]]
             /\ tmp' = [tmp EXCEPT ![f] = "none"]
             /\ UNCHANGED <<buf, snap, status, faults>>
Fail(f) == /\ Running /\ pc[f] \in {"idle", "open", "half", "full"}
           /\ faults < MaxFaults /\ faults' = faults + 1
           /\ pc' = [pc EXCEPT ![f] = "err"]
           /\ tmp' = [tmp EXCEPT ![f] = IF pc[f] = "full" THEN "none" ELSE tmp[f]]
           /\ UNCHANGED <<fin, buf, snap, status>>
Reuse == /\ Running /\ buf = "new" /\ buf' = "reused"
         /\ UNCHANGED <<pc, tmp, fin, snap, status, faults>>
Wait == /\ Running /\ \A f \in Files : pc[f] \in {"done", "err"}
        /\ status' = IF \E f \in Files : pc[f] = "err" THEN "failed" ELSE "ok"
        /\ UNCHANGED <<pc, tmp, fin, buf, snap, faults>>
Crash == /\ Running /\ faults < MaxFaults /\ faults' = faults + 1
         /\ status' = "crashed"
         /\ UNCHANGED <<pc, tmp, fin, buf, snap>>
Again == /\ status \in {"failed", "crashed"}
         /\ pc' = [f \in Files |-> "idle"]
         /\ status' = "running" /\ buf' = "new" /\ snap' = "new"
         /\ UNCHANGED <<tmp, fin, faults>>
Next == \/ \E f \in Files : Open(f) \/ Half(f) \/ Close(f) \/ Rename(f) \/ Fail(f)
        \/ Reuse \/ Wait \/ Crash \/ Again
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

\* What discovery reports.
Reported == (\A f \in Files : fin[f] /= "absent") /\ (\A f \in Files : tmp[f] = "none")

Atomic == \A f \in Files : fin[f] \in {IF Overwrite THEN "old" ELSE "absent", "new"}
OkMeansSaved == status = "ok" => \A f \in Files : fin[f] = "new" /\ tmp[f] = "none"
ReportedMeansAll == (~Overwrite /\ Reported) => \A f \in Files : fin[f] = "new"
Isolated == \A f \in Files : fin[f] /= "reused" /\ tmp[f] /= "reused"
FaultReported == status = "ok" => \A f \in Files : pc[f] = "done"
Ends == <>(status = "ok")
=============================================================================
