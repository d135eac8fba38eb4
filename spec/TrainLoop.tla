------------------------------ MODULE TrainLoop ------------------------------
(* Training to a total number of steps, with checkpoints, a retention policy *)
(* and a process that may be killed at any moment and started again.  The    *)
(* state after k updates is represented by k.                                *)
EXTENDS TrainRules, Sequences
CONSTANTS MaxT, MaxEvery, MaxKeep, MaxMult, MaxCrashes
VARIABLES T, every, keep, mult,
          disk,       \* complete checkpoints: step -> state (always the step)
          partial,    \* a checkpoint being written (-1: none)
          pc, state,  \* the process and the state in its memory
          done,       \* updates performed by this process
          crashes, resumed
vars == <<T, every, keep, mult, disk, partial, pc, state, done, crashes, resumed>>
cfg == <<T, every, keep, mult>>
Init == /\ T \in 1 .. MaxT /\ every \in 1 .. MaxEvery /\ keep \in 0 .. MaxKeep /\ mult \in 0 .. MaxMult
        /\ disk = {} /\ partial = -1 /\ pc = "off" /\ state = 0 /\ done = <<>> /\ crashes = 0 /\ resumed = 0
Start == /\ pc = "off"
         /\ state' = IF disk = {} THEN 0 ELSE MaxIn(disk)
         /\ resumed' = state' /\ done' = <<>> /\ partial' = -1
         /\ pc' = IF disk = {} THEN "first" ELSE "loop"
         /\ UNCHANGED <<cfg, disk, crashes>>
Begin(s) == partial' = s /\ UNCHANGED <<cfg, disk, state, done, crashes, resumed>>
First == pc = "first" /\ partial = -1 /\ Begin(0) /\ pc' = "loop"
(* Saving goes on while training does, one checkpoint at a time.             *)
Commit == /\ pc # "off" /\ partial >= 0
          /\ disk' = Kept(disk \cup {partial}, keep, mult) /\ partial' = -1
          /\ UNCHANGED <<cfg, pc, state, done, crashes, resumed>>
Step == /\ pc = "loop" /\ state < T
        /\ state' = state + 1 /\ done' = Append(done, state + 1)
        /\ pc' = "save" /\ UNCHANGED <<cfg, disk, partial, crashes, resumed>>
Save == /\ pc = "save"
        /\ IF DueAt(state, every)
             THEN partial = -1 /\ Begin(state)
             ELSE UNCHANGED <<cfg, disk, partial, state, done, crashes, resumed>>
        /\ pc' = "loop"
Last == /\ pc = "loop" /\ state = T /\ partial = -1
        /\ IF T \in disk THEN UNCHANGED <<cfg, disk, partial, state, done, crashes, resumed>> ELSE Begin(T)
        /\ pc' = "end"
Finish == /\ pc = "end" /\ partial = -1 /\ pc' = "done"
          /\ UNCHANGED <<cfg, disk, partial, state, done, crashes, resumed>>
Crash == /\ pc # "off" /\ crashes < MaxCrashes
         /\ pc' = "off" /\ crashes' = crashes + 1 /\ partial' = -1 /\ state' = 0
         /\ UNCHANGED <<cfg, disk, done, resumed>>
Next == Start \/ First \/ Commit \/ Step \/ Save \/ Last \/ Finish \/ Crash
Work == Start \/ First \/ Commit \/ Step \/ Save \/ Last \/ Finish
Spec == Init /\ [][Next]_vars /\ WF_vars(Work)
NoStepLost == done = [i \in DOMAIN done |-> resumed + i]
InRange == \A s \in disk : s \in 0 .. T
OnlyDue == \A s \in disk : s = 0 \/ s = T \/ DueAt(s, every)
DoneMeansAll == pc = "done" => T \in disk /\ state = T
(* What training has saved is never lost: the newest one stays.              *)
NeverBack == [][disk # {} => disk' # {} /\ MaxIn(disk') >= MaxIn(disk)]_vars
BoundedLoss == pc \in {"loop", "save"} /\ state - resumed > 2 * every + 1 => disk # {} /\ MaxIn(disk) + 2 * every + 1 >= state
Ends == <>(pc = "done")
=============================================================================
