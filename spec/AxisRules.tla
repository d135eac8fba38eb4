----------------------------- MODULE AxisRules ------------------------------
(* Parameters are visited in any order; for each the rules are tried in      *)
(* order until one is found in its path.  matches[p] is the set of rules     *)
(* whose pattern occurs in the path of p; small parameters stay whole.       *)
EXTENDS Integers, FiniteSets
CONSTANTS Params, NRules
VARIABLES matches, small, todo, cur, at, spec
vars == <<matches, small, todo, cur, at, spec>>
Rules == 1 .. NRules
First(p) == IF matches[p] = {} \/ p \in small THEN 0
            ELSE CHOOSE r \in matches[p] : \A s \in matches[p] : r <= s
Init ==
  /\ matches \in [Params -> SUBSET Rules] /\ small \in SUBSET Params
  /\ todo = Params /\ cur = "none" /\ at = 0
  /\ spec = [p \in Params |-> -1]
Take(p) == /\ cur = "none" /\ p \in todo /\ cur' = p /\ at' = 1
           /\ UNCHANGED <<matches, small, todo, spec>>
Give(r) == /\ spec' = [spec EXCEPT ![cur] = r] /\ cur' = "none" /\ at' = 0
           /\ todo' = todo \ {cur} /\ UNCHANGED <<matches, small>>
Try == /\ cur # "none"
       /\ IF at > NRules THEN Give(0)
          ELSE IF at \in matches[cur] /\ cur \notin small THEN Give(at)
          ELSE at' = at + 1 /\ UNCHANGED <<matches, small, todo, cur, spec>>
Next == (\E p \in Params : Take(p)) \/ Try
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
FirstOnly == \A p \in Params \ todo : spec[p] = First(p)
Done == <>(todo = {})
=============================================================================
