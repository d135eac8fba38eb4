---------------------------- MODULE RoutingRules ----------------------------
(* Declarative reading of top-experts-per-item routing, shared by the model  *)
(* (Routing) and by the trace judges.                                        *)
EXTENDS Integers, Sequences, FiniteSets

Max2(S) == CHOOSE x \in S : \A y \in S : y <= x

(* --- Declarative part, used by the model and by the trace judge.          *)

\* Least and greatest rank (from 0) that expert e can have for item s.
LoRank(g, s, e) == Cardinality({x \in DOMAIN g[s] : g[s][x] > g[s][e]})
HiRank(g, s, e) == Cardinality({x \in DOMAIN g[s] : g[s][x] >= g[s][e]}) - 1
BestGate(g, s) == Max2({g[s][x] : x \in DOMAIN g[s]})

\* Smaller is served earlier, among choices of the same rank.
Priority(g, s, bpr, top) == IF bpr THEN top - BestGate(g, s) ELSE s

OutcomeFailed(g, K, C, bpr, placed) ==
  LET Items   == DOMAIN g
      Experts == DOMAIN g[1]
      top     == Max2({BestGate(g, s) : s \in Items})
      prio    == [s \in Items |-> Priority(g, s, bpr, top)]
      W       == 1 + Max2({prio[s] : s \in Items})
      lo      == [s \in Items |-> [e \in Experts |-> LoRank(g, s, e)]]
      hi      == [s \in Items |-> [e \in Experts |-> HiRank(g, s, e)]]
      at      == [e \in Experts |-> {s \in Items : <<s, e>> \in placed}]
      full    == [e \in Experts |-> Cardinality(at[e]) >= C]
      \* Earliest moment at which the last accepted choice can be served.
      worst   == [e \in Experts |->
                   IF at[e] = {} THEN -1
                   ELSE Max2({lo[s][e] * W + prio[s] : s \in at[e]})]
      \* A rejected choice is excused if its expert was filled before it.
      Excused(s, e) == full[e] /\ worst[e] <= hi[s][e] * W + prio[s]
      needless == {s \in Items :
                    \/ \E e \in Experts : /\ <<s, e>> \notin placed
                                          /\ hi[s][e] < K
                                          /\ ~ Excused(s, e)
                    \/ Cardinality({e \in Experts :
                          lo[s][e] < K /\ (<<s, e>> \in placed
                                             \/ Excused(s, e))}) < K}
  IN  (IF \E p \in placed : lo[p[1]][p[2]] >= K THEN {"NotAmongTopK"} ELSE {})
      \cup (IF \E s \in Items :
                 Cardinality({e \in Experts : <<s, e>> \in placed}) > K
            THEN {"MoreThanKExperts"} ELSE {})
      \cup (IF \E e \in Experts : Cardinality(at[e]) > C
            THEN {"OverCapacity"} ELSE {})
      \cup (IF needless # {} THEN {"NeedlessDropOrPriority"} ELSE {})
=============================================================================
