---------------------------- MODULE EnsembleLoss -----------------------------
(* Outputs of an ensemble of M members for a batch of B examples come as     *)
(* B * M rows, those of an example next to each other.  Rows are consumed    *)
(* one by one: training compares each with the label of its example,         *)
(* evaluation averages the probabilities of the rows of an example.          *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt
CONSTANTS MaxB, MaxM
VARIABLES B, M, rows, train, acc, row
vars == <<B, M, rows, train, acc, row>>
(* A row is (example, member): what its probabilities depend on.             *)
Init == /\ B \in 1 .. MaxB /\ M \in 1 .. MaxM
        /\ rows = [r \in 0 .. (B * M - 1) |-> <<r \div M, r % M>>]
        /\ train = <<>> /\ acc = [b \in 0 .. (B - 1) |-> {}] /\ row = 0
Next == /\ row < B * M
        /\ train' = Append(train, row \div M)              \* label used
        /\ acc' = [acc EXCEPT ![row \div M] = @ \cup {rows[row]}]
        /\ row' = row + 1 /\ UNCHANGED <<B, M, rows>>
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
OwnLabel == \A i \in DOMAIN train : train[i] = rows[i - 1][1]
OnlyItsMembers == \A b \in 0 .. (B - 1) : \A x \in acc[b] : x[1] = b
AllMembers == row = B * M => \A b \in 0 .. (B - 1) : Cardinality(acc[b]) = M
Ends == <>(row = B * M)
=============================================================================
