----------------------------- MODULE CkptNames -----------------------------
(* The checkpoints in a directory, as its files evolve: writers create       *)
(* temporary files and finish them, jobs crash, old checkpoints are removed. *)
(* Discovery is the declarative operator Complete over the names.            *)
EXTENDS Integers, FiniteSets, Sequences, TLC

\* A name: [p |-> prefix, t |-> step, s |-> suffix, i |-> shard, n |-> shards,
\*          tmp |-> BOOLEAN]; n = 0 for a file that is not sharded.
Suffixed(D, p, t, s) == {f \in D : f.p = p /\ f.t = t /\ f.s = s /\ ~f.tmp}
AllShards(F) == \/ \E f \in F : f.n = 0
                \/ \E n \in {f.n : f \in F} :
                     n > 0 /\ \A i \in 0..(n - 1) : \E f \in F : f.i = i /\ f.n = n
CompleteStep(D, p, S, t) ==
  /\ ~ \E f \in D : f.p = p /\ f.t = t /\ f.tmp
  /\ \A s \in S : AllShards(Suffixed(D, p, t, s))
CompleteSteps(D, p, S) ==
  {t \in {f.t : f \in {g \in D : g.p = p}} : CompleteStep(D, p, S, t)}
LatestStep(D, p, S) == LET C == CompleteSteps(D, p, S) IN
  IF C = {} THEN -1 ELSE CHOOSE t \in C : \A u \in C : u <= t

CONSTANTS Steps, NShards, Keep
VARIABLES dir, job, lastgood
vars == <<dir, job, lastgood>>
FilesOf(t) == {[p |-> "ckpt", t |-> t, s |-> ".index", i |-> 0, n |-> 0]}
  \cup {[p |-> "ckpt", t |-> t, s |-> ".data", i |-> i, n |-> NShards] :
          i \in 0..(NShards - 1)}
Named(f, tmp) == [p |-> f.p, t |-> f.t, s |-> f.s, i |-> f.i, n |-> f.n, tmp |-> tmp]
Req == {".index", ".data"}
Init == dir = {} /\ job = 0 /\ lastgood = -1
Start(t) == /\ job = 0 /\ \A f \in dir : f.t < t \/ f.t = t
            /\ t > lastgood
            /\ job' = t /\ UNCHANGED <<dir, lastgood>>
OpenTmp(f) == /\ job > 0 /\ f \in FilesOf(job)
              /\ Named(f, TRUE) \notin dir /\ Named(f, FALSE) \notin dir
              /\ dir' = dir \cup {Named(f, TRUE)} /\ UNCHANGED <<job, lastgood>>
FinishTmp(f) == /\ job > 0 /\ f \in FilesOf(job) /\ Named(f, TRUE) \in dir
                /\ dir' = (dir \ {Named(f, TRUE)}) \cup {Named(f, FALSE)}
                /\ UNCHANGED <<job, lastgood>>
Done == /\ job > 0 /\ \A f \in FilesOf(job) : Named(f, FALSE) \in dir
        /\ lastgood' = job /\ job' = 0 /\ UNCHANGED dir
CrashJob == job > 0 /\ job' = 0 /\ UNCHANGED <<dir, lastgood>>
Prune == /\ job = 0 /\ Keep
         /\ dir' = {f \in dir : f.t >= lastgood}
         /\ UNCHANGED <<job, lastgood>>
Next == \/ \E t \in Steps : Start(t)
        \/ \E t \in Steps : \E f \in FilesOf(t) : OpenTmp(f) \/ FinishTmp(f)
        \/ Done \/ CrashJob \/ Prune
Spec == Init /\ [][Next]_vars

\* The latest reported checkpoint is the last one that was finished, or one
\* whose files are all there although the job died before saying so.
NeverLosesLast == lastgood /= -1 => LatestStep(dir, "ckpt", Req) >= lastgood
ReportedIsWhole == LET t == LatestStep(dir, "ckpt", Req) IN
  t /= -1 => \A f \in FilesOf(t) : Named(f, FALSE) \in dir
=============================================================================
