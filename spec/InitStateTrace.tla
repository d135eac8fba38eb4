--------------------------- MODULE InitStateTrace ----------------------------
(* Judge of real starts: which source does every leaf show, and which layout.*)
EXTENDS TraceLib
(* A leaf: path (its name components), shows (labels of the sources whose    *)
(* value it has), layouts (for each rule, and last for "no rule", whether    *)
(* its sharding is that one), shape and dtype against the ones of a fresh    *)
(* state, and given: the value was an array in the call already.             *)
M == INSTANCE InitState WITH Steps <- 0, Leaves <- {}, Cover <- {}, disk <- {}, torn <- {}, cfg <- 0, run <- 0, from <- 0, at <- 0

Label(s) == IF s.k = "ckpt" THEN "ckpt" \o ToString(s.s) ELSE s.k
Disk(r) == Range2(r.disk)
Cfg(r) == IF r.cfg = "none" THEN "none" ELSE "other"
Cover(r) == { i \in DOMAIN r.leaves : r.leaves[i].covered }
Expect(r, i) ==
  IF r.call = "reuse" THEN IF r.leaves[i].given THEN "given" ELSE "fresh"
  ELSE Label(M!Source(Disk(r), Cfg(r), Cover(r), i))
First(rules, path) ==
  LET fits == { j \in DOMAIN rules : rules[j] \in Range2(path) } IN
  IF fits = {} THEN Len(rules) + 1 ELSE MinOf(fits)

(* An unknown method and a target without a source (under a strict flag) are *)
(* errors, unless the working directory has a checkpoint.                    *)
MustReject(r) == r.call = "start" /\ Disk(r) = {} /\ r.cfg \in {"unknown", "strict"}

FailedClauses(r) ==
  CASE r.op = "state" ->
    Clause(r.rejected = MustReject(r), "Accepts") \cup
    (IF r.rejected THEN {} ELSE
      Clause(\A i \in DOMAIN r.leaves : Expect(r, i) \in Range2(r.leaves[i].shows), "Source") \cup
      Clause(\A i \in DOMAIN r.leaves : r.leaves[i].fits, "ShapeAndType") \cup
      Clause(r.sameTree, "Tree") \cup
      Clause(\A i \in DOMAIN r.leaves :
               IF r.call = "reuse" /\ r.leaves[i].given THEN r.leaves[i].kept
               ELSE r.leaves[i].layouts[First(r.rules, r.leaves[i].path)], "Layout") \cup
      Clause(r.call = "reuse" \/ r.last = (IF Disk(r) = {} THEN -1 ELSE 10 * M!Last(Disk(r))), "LastSeen"))
  [] r.op = "fresh" ->
    (* Two initialisations: the same iff the seeds are; named streams. *)
    Clause(r.same = (r.seeds[1] = r.seeds[2]), "Seed") \cup
    Clause(r.zero = 0, "StepZero") \cup
    Clause(Range2(r.streams) = Range2(r.keys), "Streams") \cup
    Clause(Cardinality(Range2(r.prints)) = Len(r.prints), "StreamsDiffer")
  [] OTHER -> {"Unknown"}
=============================================================================
