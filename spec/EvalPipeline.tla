---------------------------- MODULE EvalPipeline ----------------------------
(* Evaluation pipelines of P processes over N examples: the split is shared  *)
(* evenly, a filter may remove examples, every process replaces what it      *)
(* lacks by fake examples at the end, and all processes take steps together  *)
(* (a step needs a batch of every process: one without would hang them).     *)
EXTENDS EvalRules
CONSTANTS MaxN, P, B
VARIABLES N, keep, pos, queue, fakes, seen, steps, phase
vars == <<N, keep, pos, queue, fakes, seen, steps, phase>>
Procs == 0 .. (P - 1)
Lo(p) == (p * N) \div P
Hi(p) == ((p + 1) * N) \div P
Share(p) == {i \in 1 .. N : i > Lo(p) /\ i <= Hi(p)}
Most == CHOOSE m \in {Cardinality(Share(p)) : p \in Procs} :
          \A p \in Procs : Cardinality(Share(p)) <= m
Total == CeilDiv(Most, B) * B
Init ==
  /\ N \in 0 .. MaxN /\ keep \in SUBSET (1 .. N)
  /\ pos = [p \in Procs |-> Lo(p)] /\ queue = [p \in Procs |-> <<>>]
  /\ fakes = [p \in Procs |-> 0]
  /\ seen = <<>> /\ steps = 0 /\ phase = "run"
(* Process p reads its next example, or makes up for one that it lacks.      *)
Read(p) ==
  /\ phase = "run" /\ Len(queue[p]) < B /\ pos[p] < Hi(p)
  /\ pos' = [pos EXCEPT ![p] = @ + 1]
  /\ queue' = IF pos[p] + 1 \in keep THEN [queue EXCEPT ![p] = Append(@, pos[p] + 1)]
              ELSE queue
  /\ UNCHANGED <<N, keep, fakes, seen, steps, phase>>
Pad(p) ==
  /\ phase = "run" /\ Len(queue[p]) < B /\ pos[p] = Hi(p)
  /\ fakes[p] < Total - Cardinality(Share(p) \cap keep)
  /\ queue' = [queue EXCEPT ![p] = Append(@, 0)]
  /\ fakes' = [fakes EXCEPT ![p] = @ + 1]
  /\ UNCHANGED <<N, keep, pos, seen, steps, phase>>
RECURSIVE Gather(_)
Gather(p) == IF p = P THEN <<>> ELSE queue[p] \o Gather(p + 1)
Step ==
  /\ phase = "run" /\ \A p \in Procs : Len(queue[p]) = B
  /\ seen' = seen \o SelectSeq(Gather(0), LAMBDA x : x # 0)
  /\ steps' = steps + 1
  /\ queue' = [p \in Procs |-> <<>>]
  /\ UNCHANGED <<N, keep, pos, fakes, phase>>
Out(p) == pos[p] = Hi(p) /\ fakes[p] = Total - Cardinality(Share(p) \cap keep) /\ queue[p] = <<>>
Stop ==
  /\ phase = "run" /\ \A p \in Procs : Out(p)
  /\ phase' = "end" /\ UNCHANGED <<N, keep, pos, queue, fakes, seen, steps>>
Next == (\E p \in Procs : Read(p) \/ Pad(p)) \/ Step \/ Stop
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
NoRepeat == Cardinality({seen[i] : i \in DOMAIN seen}) = Len(seen)
AllSeen == phase = "end" => {seen[i] : i \in DOMAIN seen} = keep
StepCount == phase = "end" => steps = Batches(N, P, B)
Ends == <>(phase = "end")
=============================================================================
