------------------------------ MODULE MoeLayer ------------------------------
(* A MoE layer walks over the tokens of the batch in order, putting them     *)
(* into groups of Size; an encoder walks over its blocks, using a MoE layer  *)
(* in the configured ones and adding up their losses.                        *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt

GroupOf(i, size) == ((i - 1) \div size) + 1
ItemOf(i, size) == ((i - 1) % size) + 1
\* Output of token i: sum over the accepting experts of weight * expert(token),
\* expert e being the map x -> a[e] x + b[e].
Out(i, x, size, route, a, b) ==
  LET mine == {k \in DOMAIN route : /\ route[k][1] = GroupOf(i, size)
                                    /\ route[k][2] = ItemOf(i, size)}
      e(k) == route[k][3]
  IN  [d \in DOMAIN x |-> FoldSet(LAMBDA k, acc :
         acc + route[k][4] * (a[e(k)] * x[d] + b[e(k)]), 0, mine)]

CONSTANTS Seqs, Length, Size, Blocks
VARIABLES pos, groups, block, layers, moe, loss
vars == <<pos, groups, block, layers, moe, loss>>
N == Seqs * Length
Divides == N % Size = 0
Init == /\ pos = 0 /\ groups = <<>> /\ block = 0
        /\ layers \in SUBSET (0..(Blocks - 1)) /\ moe = {} /\ loss = {}
Take == /\ Divides /\ pos < N /\ pos' = pos + 1
        /\ groups' = IF pos % Size = 0 THEN Append(groups, <<pos + 1>>)
                     ELSE [groups EXCEPT ![Len(groups)] = Append(@, pos + 1)]
        /\ UNCHANGED <<block, layers, moe, loss>>
Walk == /\ pos = N /\ block < Blocks /\ block' = block + 1
        /\ moe' = IF block \in layers THEN moe \cup {block} ELSE moe
        /\ loss' = IF block \in layers THEN loss \cup {block} ELSE loss
        /\ UNCHANGED <<pos, groups, layers>>
Spec == Init /\ [][Take \/ Walk]_vars
Faithful == \A i \in 1..pos : groups[GroupOf(i, Size)][ItemOf(i, Size)] = i
Full == pos = N /\ Divides => \A g \in DOMAIN groups : Len(groups[g]) = Size
Layers == block = Blocks => moe = layers /\ loss = layers
=============================================================================
