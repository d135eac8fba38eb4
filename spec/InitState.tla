------------------------------ MODULE InitState ------------------------------
(* Where the leaves of a training state come from.                           *)
(* History: processes save checkpoints in the working directory, may die     *)
(* while they write one, and start again; every start fills the leaves of    *)
(* the state one by one from the source which the situation designates.      *)
EXTENDS Integers, FiniteSets
CONSTANTS Steps,        \* number of training steps
          Leaves,       \* leaves of the state
          Cover         \* leaves which the other checkpoint provides
VARIABLES disk,         \* steps of the complete checkpoints
          torn,         \* steps of half-written checkpoints
          cfg,          \* "none" or "other": is another checkpoint given
          run,          \* the process: "down", "starting", "up"
          from,         \* leaf -> source, for the leaves that were filled
          at            \* training step of the process
vars == <<disk, torn, cfg, run, from, at>>
None == [k |-> "none", s |-> 0]
Ckpt(s) == [k |-> "ckpt", s |-> s]
Last(S) == CHOOSE s \in S : \A t \in S : t <= s

(* The source of leaf x, the rule of the system. *)
Source(d, c, cover, x) ==
  IF d # {} THEN Ckpt(Last(d))
  ELSE IF c = "other" /\ x \in cover THEN [k |-> "init", s |-> 0]
  ELSE [k |-> "fresh", s |-> 0]

Init == /\ disk = {} /\ torn = {} /\ cfg \in {"none", "other"}
        /\ run = "down" /\ from = [x \in Leaves |-> None] /\ at = 0
Start == /\ run = "down" /\ run' = "starting"
         /\ from' = [x \in Leaves |-> None]
         /\ UNCHANGED <<disk, torn, cfg, at>>
Fill(x) == /\ run = "starting" /\ from[x] = None
           /\ from' = [from EXCEPT ![x] = Source(disk, cfg, Cover, x)]
           /\ UNCHANGED <<disk, torn, cfg, run, at>>
Ready == /\ run = "starting" /\ \A x \in Leaves : from[x] # None
         /\ run' = "up"
         /\ at' = IF disk = {} THEN 0 ELSE Last(disk)
         /\ UNCHANGED <<disk, torn, cfg, from>>
Train == /\ run = "up" /\ at < Steps /\ at' = at + 1
         /\ UNCHANGED <<disk, torn, cfg, run, from>>
Save == /\ run = "up" /\ at > 0 /\ disk' = disk \cup {at} /\ torn' = torn \ {at}
        /\ UNCHANGED <<cfg, run, from, at>>
Drop == /\ run = "up" /\ Cardinality(disk) > 1
        /\ \E s \in disk \ {Last(disk)} : disk' = disk \ {s}
        /\ UNCHANGED <<torn, cfg, run, from, at>>
Die == /\ run # "down" /\ run' = "down"
       /\ torn' \in {torn, IF run = "up" /\ at > 0 /\ at \notin disk THEN torn \cup {at} ELSE torn}
       /\ UNCHANGED <<disk, cfg, from, at>>
Next == Start \/ (\E x \in Leaves : Fill(x)) \/ Ready \/ Train \/ Save \/ Drop \/ Die
Spec == Init /\ [][Next]_vars

(* Every leaf of a state comes from one and the same checkpoint of the       *)
(* working directory, or none does.                                          *)
Uniform == run = "up" => \A x, y \in Leaves : (from[x].k = "ckpt" <=> from[y].k = "ckpt") /\ (from[x].k = "ckpt" => from[x] = from[y])
(* What was complete is never lost by a restart, and is never passed over.   *)
NeverBack == run = "up" => \A x \in Leaves : from[x].k = "ckpt" => from[x].s \notin torn \/ from[x].s \in disk
OnlyCovered == run = "up" => \A x \in Leaves : from[x].k = "init" => x \in Cover /\ cfg = "other"
NoTorn == torn \cap disk = {}
Progress == [][run = "starting" /\ run' = "up" /\ disk # {} => at' = Last(disk)]_vars
=============================================================================
