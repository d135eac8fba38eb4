------------------------------- MODULE Mapping -------------------------------
(* Sources are taken one by one in any order of their numbers; rules map     *)
(* them to targets.  A rule: the sources it finds (a set), where each goes,  *)
(* and whether it stacks or drops.                                           *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS NSrc, NTgt, NRules
Src == 1 .. NSrc
Tgt == 1 .. NTgt
VARIABLES rules,       \* sequence of [finds, to, kind]
          strictS, strictT,
          next,        \* sources done
          into,        \* target -> sequence of sources
          failed
vars == <<rules, strictS, strictT, next, into, failed>>
Kinds == {"copy", "stack", "drop"}
Init == /\ rules \in [1 .. NRules -> [finds : SUBSET Src, to : Tgt, kind : Kinds]]
        /\ strictS \in BOOLEAN /\ strictT \in BOOLEAN
        /\ next = 1 /\ into = [t \in Tgt |-> <<>>] /\ failed = FALSE
Found(s) == {i \in 1 .. NRules : s \in rules[i].finds}
Least(S) == CHOOSE i \in S : \A j \in S : i <= j
Take ==
  /\ ~ failed /\ next <= NSrc
  /\ next' = next + 1
  /\ LET s == next IN
     IF Found(s) = {}
     THEN IF strictS \/ s \notin Tgt \/ into[s] # <<>>
          THEN failed' = TRUE /\ UNCHANGED into
          ELSE into' = [into EXCEPT ![s] = <<s>>] /\ UNCHANGED failed
     ELSE LET r == rules[Least(Found(s))] IN
          CASE r.kind = "drop" -> UNCHANGED <<into, failed>>
            [] r.kind = "copy" -> IF into[r.to] # <<>> THEN failed' = TRUE /\ UNCHANGED into
                                  ELSE into' = [into EXCEPT ![r.to] = <<s>>] /\ UNCHANGED failed
            [] r.kind = "stack" -> into' = [into EXCEPT ![r.to] = Append(@, s)] /\ UNCHANGED failed
  /\ UNCHANGED <<rules, strictS, strictT>>
Finish == /\ ~ failed /\ next = NSrc + 1 /\ strictT /\ \E t \in Tgt : into[t] = <<>>
          /\ failed' = TRUE /\ UNCHANGED <<rules, strictS, strictT, next, into>>
Spec == Init /\ [][Take \/ Finish]_vars
Range(q) == {q[i] : i \in DOMAIN q}
(* Every source is in at most one place, in order, and where its first rule  *)
(* says.                                                                     *)
Once == \A t, u \in Tgt : t # u => Range(into[t]) \cap Range(into[u]) = {}
InOrder == \A t \in Tgt : \A i, j \in DOMAIN into[t] : i < j => into[t][i] < into[t][j]
ByFirst == \A t \in Tgt : \A s \in Range(into[t]) :
  IF Found(s) = {} THEN t = s ELSE rules[Least(Found(s))].to = t /\ rules[Least(Found(s))].kind # "drop"
=============================================================================
