------------------------------ MODULE OptChain -------------------------------
(* Two parameters updated for some steps with per-parameter factors: the     *)
(* gradient passes the stages of OptRules one after the other, in lock-step  *)
(* for all the parameters because clipping looks at all of them.             *)
EXTENDS OptRules, FiniteSets, FiniteSetsExt
CONSTANTS MaxG, Steps, Limit
Params == {"a", "b"}
VARIABLES scale, decay, frozen,    \* of the first rule that matches each
          value, mom, grad, stage, step
cfg == <<scale, decay, frozen>>
vars == <<scale, decay, frozen, value, mom, grad, stage, step>>
AbsI(x) == IF x < 0 THEN -x ELSE x
Sum(g) == FoldSet(LAMBDA p, s : s + AbsI(g[p]), 0, Params)
Init == /\ scale \in [Params -> {1, 2}] /\ decay \in [Params -> {0, 1}]
        /\ frozen \in [Params -> BOOLEAN]
        /\ value = [p \in Params |-> 3] /\ mom = [p \in Params |-> 0]
        /\ grad = [p \in Params |-> 0] /\ stage = 0 /\ step = 0
Receive == /\ stage = 0 /\ step < Steps
           /\ grad' \in [Params -> (0 - MaxG) .. MaxG]
           /\ stage' = 1 /\ UNCHANGED <<cfg, value, mom, step>>
Do(name) == stage > 0 /\ stage <= Len(Stages) /\ Stages[stage] = name /\ stage' = stage + 1
Scale == Do("scale") /\ grad' = [p \in Params |-> grad[p] * scale[p]] /\ UNCHANGED <<cfg, value, mom, step>>
(* All are dropped if together too large (stands for any common factor).     *)
Clip == Do("clip") /\ grad' = (IF Sum(grad) > Limit THEN [p \in Params |-> 0] ELSE grad)
        /\ UNCHANGED <<cfg, value, mom, step>>
Direction == Do("direction") /\ mom' = [p \in Params |-> mom[p] + grad[p]] /\ grad' = mom'
             /\ UNCHANGED <<cfg, value, step>>
Decay == Do("decay") /\ grad' = [p \in Params |-> grad[p] + decay[p] * value[p]] /\ UNCHANGED <<cfg, value, mom, step>>
Rate == Do("rate") /\ grad' = [p \in Params |-> 0 - grad[p]] /\ UNCHANGED <<cfg, value, mom, step>>
Freeze == Do("freeze") /\ grad' = [p \in Params |-> IF frozen[p] THEN 0 ELSE grad[p]]
          /\ UNCHANGED <<cfg, value, mom, step>>
Apply == /\ stage = Len(Stages) + 1
         /\ value' = [p \in Params |-> value[p] + grad[p]]
         /\ stage' = 0 /\ step' = step + 1 /\ UNCHANGED <<cfg, mom, grad>>
Next == Receive \/ Scale \/ Clip \/ Direction \/ Decay \/ Rate \/ Freeze \/ Apply
Spec == Init /\ [][Next]_vars
FrozenStay == \A p \in Params : frozen[p] => value[p] = 3
Bounded == (stage = 3) => Sum(grad) <= Limit
(* Decay is not accumulated and is not clipped.                              *)
MomBounded == \A p \in Params : AbsI(mom[p]) <= Limit * (step + 1)
DecayCounts == [][(stage = 5 /\ stage' = 6) => \A p \in Params : 0 - grad'[p] = mom[p] + decay[p] * value[p]]_vars
=============================================================================
