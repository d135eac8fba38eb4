------------------------- MODULE ExpertChoiceRules --------------------------
(* Declarative reading of top-items-per-expert ("expert choice") routing.    *)
EXTENDS Integers, Sequences, FiniteSets

\* placed: set of accepted <<item, expert>>; ties may be broken either way.
ChoiceFailed(g, C, placed) ==
  LET Items   == DOMAIN g
      Experts == DOMAIN g[1]
      at      == [e \in Experts |-> {s \in Items : <<s, e>> \in placed}]
      worst   == [e \in Experts |->
                    IF at[e] = {} THEN 0
                    ELSE CHOOSE x \in {g[s][e] : s \in at[e]} :
                           \A s \in at[e] : x <= g[s][e]]
  IN (IF \E e \in Experts : Cardinality(at[e]) # C
      THEN {"NotExactlyCapacity"} ELSE {})
     \cup (IF \E e \in Experts : \E s \in Items \ at[e] : g[s][e] > worst[e]
           THEN {"BetterItemRejected"} ELSE {})

NumExperts(g, placed, s) ==
  Cardinality({e \in DOMAIN g[1] : <<s, e>> \in placed})
NumAtLeast(g, placed, t) ==
  Cardinality({s \in DOMAIN g : NumExperts(g, placed, s) >= t})
=============================================================================
