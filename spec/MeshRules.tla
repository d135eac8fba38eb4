----------------------------- MODULE MeshRules ------------------------------
(* A hardware mesh of shape hs (one entry per hardware axis) in which every  *)
(* process owns a block of shape ls, and the logical mesh (rows: partitions, *)
(* columns: replicas) which cuts axis k in ps[k] parts.                      *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt

Prod(s) == FoldSeq(LAMBDA x, y : x * y, 1, s)
Divides(a, b) == a >= 1 /\ b % a = 0
Possible(ps, hs) == \A k \in DOMAIN hs : Divides(ps[k], hs[k])
Reps(ps, hs) == [k \in DOMAIN hs |-> hs[k] \div ps[k]]
(* A process holds whole parts, or a share of one part, along every axis.    *)
Tileable(ps, hs, ls) ==
  \A k \in DOMAIN hs : LET r == hs[k] \div ps[k] IN
    Divides(ls[k], r) \/ Divides(r, ls[k])
ProcOf(c, ls) == [k \in DOMAIN ls |-> c[k] \div ls[k]]
PartOf(c, rs) == [k \in DOMAIN rs |-> c[k] \div rs[k]]

(* M: a sequence of rows, each a sequence of coordinates.                    *)
Cells(M) == {<<i, j>> : i \in DOMAIN M, j \in DOMAIN M[1]}
ShapeOk(M, ps, hs) ==
  /\ Len(M) = Prod(ps)
  /\ \A i \in DOMAIN M : Len(M[i]) = Prod(hs) \div Prod(ps)
EachOnce(M, hs) ==
  LET all == {M[x[1]][x[2]] : x \in Cells(M)}
  IN  /\ Cardinality(all) = Prod(hs)
      /\ \A c \in all : \A k \in DOMAIN hs : c[k] >= 0 /\ c[k] < hs[k]
Blocks(M, ps, hs) ==
  \A i \in DOMAIN M : \A j \in DOMAIN M[i] :
    PartOf(M[i][j], Reps(ps, hs)) = PartOf(M[i][1], Reps(ps, hs))
Rectangle(S) ==
  LET R == {x[1] : x \in S}
      C == {x[2] : x \in S}
      Span(T) == (CHOOSE a \in T : \A b \in T : b <= a)
                 - (CHOOSE a \in T : \A b \in T : b >= a) + 1
  IN  Cardinality(S) = Span(R) * Span(C)
Contiguous(M, ls) ==
  \A p \in {ProcOf(M[x[1]][x[2]], ls) : x \in Cells(M)} :
    Rectangle({x \in Cells(M) : ProcOf(M[x[1]][x[2]], ls) = p})

(* The requested number of partitions is put on the hardware axes greedily   *)
(* in the order ax.                                                          *)
RECURSIVE Greedy(_, _, _, _)
Greedy(n, hs, ax, ps) ==
  IF ax = <<>> THEN ps
  ELSE LET k == Head(ax)
           p == IF n < hs[k] THEN n ELSE hs[k]
       IN  Greedy(n \div p, hs, Tail(ax), [ps EXCEPT ![k] = p])
(* Axes: (device, process) or (core, x, y, z).                               *)
Order(hs) == IF Len(hs) = 2 THEN <<1, 2>>
             ELSE IF hs[4] = 1 THEN <<2, 3, 1>> ELSE <<4, 3, 2, 1>>
Auto(n, hs) == Greedy(n, hs, Order(hs), [k \in DOMAIN hs |-> 1])
=============================================================================
