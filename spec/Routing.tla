------------------------------- MODULE Routing -------------------------------
(* Top-experts-per-item ("token choice") routing.                            *)
(*                                                                           *)
(* The machine serves the choices (rank, item) one at a time: rank by rank,  *)
(* and within a rank in the order of priority of the items.  A choice is     *)
(* accepted if the buffer of its expert is not full and dropped otherwise.   *)
(* Gates are integers (only their order matters here); ties are resolved     *)
(* nondeterministically, so that the machine has every legal outcome.        *)
(*                                                                           *)
(* OutcomeFailed is the declarative reading of the property: it takes gates  *)
(* and an outcome (a set of accepted <<item, expert>> pairs) and returns the *)
(* names of the violated clauses.  The model checks that the machine only    *)
(* ends in outcomes without failed clauses (soundness), and that whenever    *)
(* no gates are tied the machine's outcome is the only such one (so that a   *)
(* judge using OutcomeFailed is as strong as comparing with the machine).    *)
EXTENDS RoutingRules

(* --- Machine.                                                             *)

CONSTANTS S, E, K, C, BPR, MaxGate, CheckUnique

Items == 1..S
Experts == 1..E

VARIABLES gate,      \* gate[s][e]
          choice,    \* choice[s]: the experts of s, best first
          order,     \* items by decreasing priority
          pos,       \* number of choices already served
          buf        \* buf[e]: sequence of items accepted by expert e

vars == <<gate, choice, order, pos, buf>>

Sorted(f, n) == \A i, j \in 1..n : i < j => f[i] >= f[j]
Perms(T) == {p \in [1..Cardinality(T) -> T] :
               \A i, j \in 1..Cardinality(T) : i # j => p[i] # p[j]}

Init ==
  /\ gate \in [Items -> [Experts -> 0..MaxGate]]
  /\ choice \in [Items -> Perms(Experts)]
  /\ \A s \in Items : Sorted([i \in 1..E |-> gate[s][choice[s][i]]], E)
  /\ IF BPR THEN /\ order \in Perms(Items)
                 /\ Sorted([i \in 1..S |-> BestGate(gate, order[i])], S)
            ELSE order = [i \in 1..S |-> i]
  /\ pos = 0
  /\ buf = [e \in Experts |-> <<>>]

Serve ==
  /\ pos < K * S
  /\ LET rank == (pos \div S) + 1
         s    == order[(pos % S) + 1]
         e    == choice[s][rank]
     IN  buf' = IF Len(buf[e]) < C THEN [buf EXCEPT ![e] = Append(@, s)]
                ELSE buf
  /\ pos' = pos + 1
  /\ UNCHANGED <<gate, choice, order>>

Next == Serve
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Placed == {<<s, e>> \in Items \X Experts : \E i \in DOMAIN buf[e] : buf[e][i] = s}
Done == pos = K * S
NoTies ==
  /\ \A s \in Items : \A a, b \in Experts : a # b => gate[s][a] # gate[s][b]
  /\ BPR => \A s, t \in Items : s # t => BestGate(gate, s) # BestGate(gate, t)

Capacity == \A e \in Experts : Len(buf[e]) <= C
OneSlotEach == \A e \in Experts : \A i, j \in DOMAIN buf[e] :
                 i # j => buf[e][i] # buf[e][j]
Sound == Done => OutcomeFailed(gate, K, C, BPR, Placed) = {}
Unique == (CheckUnique /\ Done /\ NoTies) =>
            \A P \in SUBSET (Items \X Experts) :
              P # Placed => OutcomeFailed(gate, K, C, BPR, P) # {}
Terminates == <>Done
=============================================================================
