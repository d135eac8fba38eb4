---------------------------- MODULE TrainLoopGen -----------------------------
(* Histories: at which step, and where in it, each process but the last is   *)
(* killed; "torn": another checkpoint is left half-written.                    *)
EXTENDS GenLib
CONSTANT MaxT
Kills(T) == [at : 0 .. T, where : {"data", "report", "eval", "torn"}]
Cases == UNION {{[T |-> T, every |-> e, keep |-> k, mult |-> m, kills |-> ks] :
            e \in 1 .. 4, k \in 0 .. 3, m \in {0, 2, 3},
            ks \in {<<>>} \cup {<<a>> : a \in Kills(T)}} : T \in {1, 3, MaxT}}
         \cup {[T |-> MaxT, every |-> e, keep |-> k, mult |-> 0, kills |-> <<a, b>>] :
            e \in {1, 2, 3}, k \in {1, 2}, a, b \in Kills(MaxT)}
Write == WriteCases(Cases)
=============================================================================
