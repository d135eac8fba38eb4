---------------------------- MODULE ExpertChoice ----------------------------
(* Every expert repeatedly takes its best remaining item until it is full;   *)
(* experts act in any order (they do not interact).                          *)
EXTENDS ExpertChoiceRules
CONSTANTS S, E, C, MaxGate
ASSUME C <= S
Items == 1..S
Experts == 1..E
VARIABLES gate, taken
vars == <<gate, taken>>
Init == /\ gate \in [Items -> [Experts -> 0..MaxGate]]
        /\ taken = [e \in Experts |-> {}]
Take(e, s) ==
  /\ Cardinality(taken[e]) < C
  /\ s \notin taken[e]
  /\ \A t \in Items \ taken[e] : gate[t][e] <= gate[s][e]
  /\ taken' = [taken EXCEPT ![e] = @ \cup {s}]
  /\ UNCHANGED gate
Next == \E e \in Experts, s \in Items : Take(e, s)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Placed == {<<s, e>> \in Items \X Experts : s \in taken[e]}
Done == \A e \in Experts : Cardinality(taken[e]) = C
Capacity == \A e \in Experts : Cardinality(taken[e]) <= C
Sound == Done => ChoiceFailed(gate, C, Placed) = {}
NoTies == \A e \in Experts : \A s, t \in Items : s # t => gate[s][e] # gate[t][e]
Unique == (Done /\ NoTies) =>
            \A P \in SUBSET (Items \X Experts) :
               P # Placed => ChoiceFailed(gate, C, P) # {}
Counts == Done => /\ NumAtLeast(gate, Placed, 0) = S
                  /\ \A t \in 0..E : NumAtLeast(gate, Placed, t + 1)
                                      <= NumAtLeast(gate, Placed, t)
                  /\ (C = S => NumAtLeast(gate, Placed, E) = S)
Terminates == <>Done
=============================================================================
