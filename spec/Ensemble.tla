------------------------------ MODULE Ensemble ------------------------------
(* Efficient ensembles: M members, each with its own copy of the T tokens    *)
(* and its own block of Em experts, routed together by one token-choice      *)
(* machine (see Routing).  The service order interleaves the members: token  *)
(* by token, or by decreasing best gate of any member.  NonInterference is   *)
(* a self-composition: what the experts of a member accept is what they      *)
(* would accept if the other members did not exist.                          *)
EXTENDS RoutingRules

\* Items of a group are laid out token by token: item s is of member Of(s).
Of(s, M) == ((s - 1) % M) + 1
Block(e, Em) == ((e - 1) \div Em) + 1
\* Gates over all experts of an item, given those over its own block.
FullGates(w, M, Em) == [s \in DOMAIN w |-> [e \in 1..(M * Em) |->
  IF Block(e, Em) = Of(s, M) THEN w[s][e - (Of(s, M) - 1) * Em] ELSE 0]]
Foreign(placed, M, Em) == {p \in placed : Block(p[2], Em) # Of(p[1], M)}

CONSTANTS M, Em, T, K, C, BPR, MaxGate
S == M * T
VARIABLES gate, choice, order, pos, buf
vars == <<gate, choice, order, pos, buf>>

Sorted(f, n) == \A i, j \in 1..n : i < j => f[i] >= f[j]
Perms(X) == {p \in [1..Cardinality(X) -> X] :
               \A i, j \in 1..Cardinality(X) : i # j => p[i] # p[j]}
Init ==
  /\ gate \in [1..S -> [1..Em -> 1..MaxGate]]
  /\ choice \in [1..S -> Perms(1..Em)]
  /\ \A s \in 1..S : Sorted([i \in 1..Em |-> gate[s][choice[s][i]]], Em)
  /\ IF BPR THEN /\ order \in Perms(1..S)
                 /\ Sorted([i \in 1..S |-> BestGate(gate, order[i])], S)
            ELSE order = [i \in 1..S |-> i]
  /\ pos = 0
  /\ buf = [e \in 1..(M * Em) |-> <<>>]
Expert(s, rank) == (Of(s, M) - 1) * Em + choice[s][rank]
Accept(b, e, s) == IF Len(b[e]) < C THEN [b EXCEPT ![e] = Append(@, s)] ELSE b
Next ==
  /\ pos < K * S
  /\ LET s == order[(pos % S) + 1]
     IN  buf' = Accept(buf, Expert(s, (pos \div S) + 1), s)
  /\ pos' = pos + 1
  /\ UNCHANGED <<gate, choice, order>>
Spec == Init /\ [][Next]_vars

RECURSIVE Alone(_, _, _)
Alone(m, p, b) ==      \* member m served alone, in the same relative order
  IF p = K * S THEN b
  ELSE LET s == order[(p % S) + 1]
       IN  Alone(m, p + 1, IF Of(s, M) = m
                           THEN Accept(b, Expert(s, (p \div S) + 1), s) ELSE b)
Done == pos = K * S
Placed == {<<s, e>> \in (1..S) \X (1..(M * Em)) : \E i \in DOMAIN buf[e] : buf[e][i] = s}
OwnBlock == Foreign(Placed, M, Em) = {}
NonInterference == Done => \A m \in 1..M :
  LET b == Alone(m, 0, [e \in 1..(M * Em) |-> <<>>])
  IN  \A e \in 1..(M * Em) : Block(e, Em) = m => b[e] = buf[e]
\* Judging the whole group with the rules of token choice is sound.
Sound == Done => OutcomeFailed(FullGates(gate, M, Em), K, C, BPR, Placed) = {}
=============================================================================
