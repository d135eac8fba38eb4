-------------------------------- MODULE Mesh --------------------------------
(* Construction of the logical mesh.  Axes of the hardware mesh are split in *)
(* partitions and replicas and sorted partitions first; if the devices of a  *)
(* process do not form a rectangle, each split is refined by process and the *)
(* process parts are sorted first.                                           *)
EXTENDS MeshRules, TLC
CONSTANTS Axes, MaxAxis, MaxLocal, MaxDevices
VARIABLES hs, ls, ps, mesh, stage
vars == <<hs, ls, ps, mesh, stage>>
Shapes == {s \in [1 .. Axes -> 1 .. MaxAxis] : Prod(s) <= MaxDevices}

RECURSIVE Tuples(_)
Tuples(s) == IF s = <<>> THEN <<<<>>>>
             ELSE LET rest == Tuples(Tail(s))
                  IN  FoldSeq(LAMBDA x, acc : acc \o [i \in DOMAIN rest |-> <<x>> \o rest[i]],
                              <<>>, [i \in 1 .. Head(s) |-> i - 1])
Rev(s) == [i \in DOMAIN s |-> s[Len(s) + 1 - i]]
(* Rows in the order of the given digits, columns too; f gives the hardware  *)
(* coordinate of a pair of digits along axis k.                              *)
Default(p, r) ==
  LET rows == Tuples(p)  cols == Tuples(r)
  IN  [i \in DOMAIN rows |-> [j \in DOMAIN cols |->
        [k \in DOMAIN p |-> rows[i][k] * r[k] + cols[j][k]]]]
(* Along axis k: <<partition processes, partition devices, ...replicas>>.    *)
Split(p, r, n) == IF Divides(n, r) THEN <<p, 1, r \div n, n>>
                  ELSE <<(p * r) \div n, n \div r, 1, r>>
Tile(p, r, n) ==
  LET K == DOMAIN p
      sp == [k \in K |-> Split(p[k], r[k], n[k])]
      col(c) == [k \in K |-> sp[k][c]]
      rows == Tuples(col(1) \o col(2))
      cols == Tuples(col(3) \o col(4))
      m == Len(p)
  IN  [i \in DOMAIN rows |-> [j \in DOMAIN cols |->
        [k \in K |-> ((rows[i][k] * sp[k][2] + rows[i][m + k]) * sp[k][3]
                      + cols[j][k]) * sp[k][4] + cols[j][m + k]]]]

Init ==
  /\ hs \in Shapes
  /\ ls \in [1 .. Axes -> 1 .. MaxLocal] /\ \A k \in DOMAIN hs : Divides(ls[k], hs[k])
  /\ ps \in Shapes
  /\ mesh = <<>> /\ stage = "asked"
Reject ==
  /\ stage = "asked" /\ ~Possible(ps, hs)
  /\ stage' = "rejected" /\ UNCHANGED <<hs, ls, ps, mesh>>
Build ==
  /\ stage = "asked" /\ Possible(ps, hs)
  /\ mesh' = Default(ps, Reps(ps, hs))
  /\ stage' = IF Contiguous(mesh', ls) THEN "done" ELSE "scattered"
  /\ UNCHANGED <<hs, ls, ps>>
Refine ==
  /\ stage = "scattered"
  /\ IF Tileable(ps, hs, ls)
     THEN /\ mesh' = Tile(ps, Reps(ps, hs), ls) /\ stage' = "done"
     ELSE /\ stage' = "rejected" /\ UNCHANGED mesh
  /\ UNCHANGED <<hs, ls, ps>>
Next == Reject \/ Build \/ Refine
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Built == stage = "done" => /\ ShapeOk(mesh, ps, hs) /\ EachOnce(mesh, hs)
                           /\ Blocks(mesh, ps, hs)
Together == stage = "done" => Contiguous(mesh, ls)
NotRefused == stage = "rejected" => ~(Possible(ps, hs) /\ Tileable(ps, hs, ls))
Ends == <>(stage \in {"done", "rejected"})
=============================================================================
