------------------------------- MODULE FewShot -------------------------------
(* Few-shot evaluation: the valid training examples are collected batch by   *)
(* batch, those of each class are put in an order determined by the seed,    *)
(* and for each number of shots the first ones of each class are fitted.     *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt
CONSTANTS N, Classes, Rows, MaxShot
VARIABLES data,     \* positions: [label, valid]; Rows of them in a batch
          pos, kept,
          order,    \* per class, the order of its examples
          shot, chosen
vars == <<data, pos, kept, order, shot, chosen>>
Cls == 0 .. (Classes - 1)
Init == /\ data \in [1 .. N -> [label : Cls, valid : BOOLEAN]]
        /\ pos = 0 /\ kept = <<>> /\ order = <<>> /\ shot = 0 /\ chosen = <<>>
Batch == (pos + 1) .. (IF pos + Rows < N THEN pos + Rows ELSE N)
Read == /\ pos < N
        /\ kept' = kept \o SetToSortSeq({i \in Batch : data[i].valid}, <)
        /\ pos' = (IF pos + Rows < N THEN pos + Rows ELSE N)
        /\ UNCHANGED <<data, order, shot, chosen>>
OfClass(c) == {i \in DOMAIN kept : data[kept[i]].label = c}
Orders(S) == {f \in [1 .. Cardinality(S) -> S] : \A i, j \in DOMAIN f : f[i] = f[j] => i = j}
Permute == /\ pos = N /\ order = <<>> /\ shot = 0
           /\ order' \in {o \in [Cls -> UNION {Orders(OfClass(c)) : c \in Cls}] :
                            \A c \in Cls : o[c] \in Orders(OfClass(c))}
           /\ shot' = 1 /\ UNCHANGED <<data, pos, kept, chosen>>
First(s, k) == {s[i] : i \in {j \in DOMAIN s : j <= k}}
Fit == /\ shot \in 1 .. MaxShot
       /\ chosen' = Append(chosen, UNION {First(order[c], shot) : c \in Cls})
       /\ shot' = shot + 1 /\ UNCHANGED <<data, pos, kept, order>>
Next == Read \/ Permute \/ Fit
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
ValidOnly == {kept[i] : i \in DOMAIN kept} = {i \in 1 .. pos : data[i].valid}
Has(c) == Cardinality({i \in 1 .. N : data[i].valid /\ data[i].label = c})
ShotsPerClass == \A k \in DOMAIN chosen : \A c \in Cls :
   Cardinality({i \in chosen[k] : data[kept[i]].label = c}) = (IF k < Has(c) THEN k ELSE Has(c))
Nested == \A k \in DOMAIN chosen : k > 1 => chosen[k - 1] \subseteq chosen[k]
Ends == <>(Len(chosen) = MaxShot)
=============================================================================
