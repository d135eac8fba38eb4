------------------------------ MODULE Prefetch -------------------------------
(* Prefetching: a source of N elements (which fails when asked for element   *)
(* Err, 0: never), a queue of at most Size elements moved to the devices,    *)
(* and a consumer.  Size = 0 moves every element when it is asked for.       *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS MaxN, MaxSize
VARIABLES n, size, err,   \* the source and the buffer
          taken,          \* elements the source has handed over
          queue,          \* elements on the devices, not yet delivered
          out,            \* elements delivered
          st              \* "start" "asked" "idle" "failed" "ended"
vars == <<n, size, err, taken, queue, out, st>>
Init == /\ n \in 0 .. MaxN /\ size \in 0 .. MaxSize /\ err \in 0 .. (n + 1)
        /\ taken = 0 /\ queue = <<>> /\ out = <<>> /\ st = "start"
Exhausted == taken = n /\ err # n + 1
Cap == IF size = 0 THEN 1 ELSE size
Ask == st \in {"start", "idle"} /\ st' = "asked" /\ UNCHANGED <<n, size, err, taken, queue, out>>
(* The queue is filled up before an element is delivered.                    *)
Take == /\ st = "asked" /\ ~ Exhausted /\ Len(queue) < Cap
        /\ IF err = taken + 1
             THEN st' = "failed" /\ UNCHANGED <<taken, queue>>
             ELSE taken' = taken + 1 /\ queue' = Append(queue, taken + 1) /\ st' = st
        /\ UNCHANGED <<n, size, err, out>>
Deliver == /\ st = "asked" /\ (Exhausted \/ Len(queue) = Cap)
           /\ IF queue = <<>>
                THEN st' = "ended" /\ UNCHANGED <<queue, out>>
                ELSE out' = Append(out, Head(queue)) /\ queue' = Tail(queue) /\ st' = "idle"
           /\ UNCHANGED <<n, size, err, taken>>
Next == Ask \/ Take \/ Deliver
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
InOrder == out = [i \in 1 .. Len(out) |-> i]
Ahead == taken - Len(out) <= Cap
NoLoss == out \o queue = [i \in 1 .. taken |-> i]
EndsWithAll == st = "ended" => Len(out) = n /\ err = 0
FailsOnlyByItself == st = "failed" => err = taken + 1
Filled == st = "idle" /\ err = 0 => taken >= IF Len(out) + Cap - 1 < n THEN Len(out) + Cap - 1 ELSE n
Ends == <>(st \in {"failed", "ended"})
=============================================================================
