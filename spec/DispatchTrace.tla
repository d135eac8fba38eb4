---------------------------- MODULE DispatchTrace ---------------------------
(* r.accepted: <<g, s, e>> accepted pairs, each group routed on its own.     *)
(* r.x[g][s]: payload (sequence of integers), distinct per item, not zero.   *)
(* r.rows[e]: payloads seen by expert e.   r.out[g][s]: combined output.     *)
(* Expert e maps each payload entry v to Mul(e) * v + Add(e), also in unused *)
(* slots.  Gates and outputs are integers in units of 1/r.scale.             *)
EXTENDS TraceLib
Mul(e) == e + 1
Add(e) == 100 * e
FailedClauses(r) ==
  LET A == Range2(r.accepted)
      Gs == DOMAIN r.x
      Ss == DOMAIN r.x[1]
      D == DOMAIN r.x[1][1]
      zero == [d \in D |-> 0]
      AccG == [g \in Gs |-> [s \in Ss |->
                 {a[3] : a \in {b \in A : b[1] = g /\ b[2] = s}}]]
      AtE(e) == {<<a[1], a[2]>> : a \in {b \in A : b[3] = e}}
      Want(g, s, d) == SumOver(AccG[g][s], LAMBDA e :
                 r.gates[g][s][e] * (Mul(e) * r.x[g][s][d] + Add(e)))
      Mag(g, s, d) == SumOver(AccG[g][s], LAMBDA e :
                 AbsV(r.gates[g][s][e] * (Mul(e) * r.x[g][s][d] + Add(e))))
  IN  Clause(\A e \in DOMAIN r.rows :
               LET used == {p \in DOMAIN r.rows[e] : r.rows[e][p] # zero}
               IN  /\ Cardinality(used) = Cardinality(AtE(e))
                   /\ {r.rows[e][p] : p \in used}
                        = {r.x[a[1]][a[2]] : a \in AtE(e)},
             "Delivery-" \o r.variant)
      \cup Clause(\A e \in DOMAIN r.rows : Len(r.rows[e]) = Len(r.x) * r.C,
                  "RowLength-" \o r.variant)
      \cup Clause(\A g \in Gs, s \in Ss, d \in D :
               IF r.loose
               THEN AbsV(r.out[g][s][d] - Want(g, s, d)) * 64 <= Mag(g, s, d) + 64
               ELSE r.out[g][s][d] = Want(g, s, d),
             "Combine-" \o r.variant)
      \cup Clause(r.dtype_kept, "Dtype-" \o r.variant)
=============================================================================
