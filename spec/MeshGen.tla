------------------------------ MODULE MeshGen -------------------------------
(* Hardware meshes, blocks owned by a process, and requests: a number of     *)
(* partitions (auto), or the partitions along every axis.                    *)
EXTENDS GenLib, MeshRules
CONSTANT MaxDevices
Blk(hs) == {ls \in [1 .. 4 -> {1, 2, 4}] : \A k \in 1 .. 4 : Divides(ls[k], hs[k])}
Tpus == {hs \in {<<c, x, y, z>> : c \in {1, 2}, x \in {1, 2, 3, 4}, y \in {1, 2, 4, 6},
                               z \in {1, 2, 4}} : Prod(hs) <= MaxDevices}
Locals(hs) == {ls \in Blk(hs) : ls[1] = hs[1] /\ Prod(ls) <= 8}
Counts(hs) == 0 .. (Prod(hs) + 1)
Other == {[kind |-> "auto", plat |-> "other", hs |-> hs, ls |-> <<hs[1], 1>>, n |-> n,
           ps |-> <<>>] : hs \in {<<d, h>> : d \in 1 .. 8, h \in 1 .. 6}, n \in 1 .. 49}
OtherFit == {c \in Other : Prod(c.hs) <= MaxDevices /\ c.n <= Prod(c.hs) + 1}
Tpu == UNION {{[kind |-> "auto", plat |-> "tpu", hs |-> hs, ls |-> ls, n |-> n, ps |-> <<>>]
               : ls \in Locals(hs), n \in {1, 2, 3, 4, 6, 8, 12, 16, 24, 32, 64}}
              : hs \in Tpus}
Parts(hs) == {ps \in [1 .. 4 -> {1, 2, 3, 4}] : \A k \in 1 .. 4 : ps[k] <= hs[k]}
Explicit == UNION {{[kind |-> "parts", plat |-> "tpu", hs |-> hs, ls |-> ls, n |-> 0,
                     ps |-> ps] : ls \in Locals(hs), ps \in Parts(hs)}
                   : hs \in {h \in Tpus : h[1] * h[4] <= 2}}
Cases == OtherFit \cup Tpu \cup Explicit
Write == WriteCases(Cases)
=============================================================================
