------------------------------ MODULE Dispatch ------------------------------
(* Movement of the buffer cells (group, expert, slot) to the experts and     *)
(* back.  With P = G/E devices' worth of groups per expert the cells travel  *)
(* through the same transposition that an all-to-all performs; otherwise     *)
(* group and expert axes are swapped.  Phases:                               *)
(*    grouped -> delivered (experts see rows) -> processed -> returned       *)
(* Payloads are the identities of the cells, so that every mix-up is seen.   *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS MaxG, MaxE, MaxC

VARIABLES G, E, C, phase, row, back
vars == <<G, E, C, phase, row, back>>

Groups == 0..(G-1)
Experts == 0..(E-1)
Slots == 0..(C-1)

\* Position, in the row of expert e, of the slot c that group g filled for e.
PosOf(g, c) ==
  IF G % E = 0
  THEN LET P == G \div E
           a == g \div P
           b == g % P
       IN  (b * E + a) * C + c
  ELSE g * C + c

\* Inverse map, as computed on the way back.
GroupOf(p) ==
  LET q == p \div C
  IN  IF G % E = 0 THEN (q % E) * (G \div E) + (q \div E) ELSE q
SlotOf(p) == p % C

Init == /\ G \in 1..MaxG /\ E \in 1..MaxE /\ C \in 1..MaxC
        /\ phase = "grouped" /\ row = <<>> /\ back = <<>>

Deliver ==
  /\ phase = "grouped"
  /\ row' = [e \in Experts |-> [p \in 0..(G*C-1) |->
               LET cell == {x \in Groups \X Slots : PosOf(x[1], x[2]) = p}
               IN  {<<x[1], e, x[2]>> : x \in cell}]]
  /\ phase' = "delivered"
  /\ UNCHANGED <<G, E, C, back>>

Process ==       \* expert e tags everything it sees, used or not
  /\ phase = "delivered"
  /\ row' = [e \in Experts |-> [p \in 0..(G*C-1) |->
               {<<x[1], x[2], x[3], e>> : x \in row[e][p]}]]
  /\ phase' = "processed"
  /\ UNCHANGED <<G, E, C, back>>

Return ==
  /\ phase = "processed"
  /\ back' = [g \in Groups |-> [e \in Experts |-> [c \in Slots |->
               UNION {row[e][p] : p \in {q \in 0..(G*C-1) :
                                   GroupOf(q) = g /\ SlotOf(q) = c}}]]]
  /\ phase' = "returned"
  /\ UNCHANGED <<G, E, C, row>>

Next == Deliver \/ Process \/ Return
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

\* Every position holds exactly one cell, and only cells meant for its expert.
Bijection == phase = "delivered" =>
  /\ \A e \in Experts : \A p \in DOMAIN row[e] :
       Cardinality(row[e][p]) = 1 /\ \A x \in row[e][p] : x[2] = e
  /\ Cardinality({<<e, x>> : e \in Experts,
        x \in UNION {row[e][p] : e \in Experts, p \in 0..(G*C-1)}})
       = E * E * G * C
\* What returns to (g, e, c) is that cell, processed by expert e.
RoundTrip == phase = "returned" =>
  \A g \in Groups, e \in Experts, c \in Slots :
     back[g][e][c] = {<<g, e, c, e>>}
Ends == <>(phase = "returned")
=============================================================================
