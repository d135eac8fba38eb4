------------------------------- MODULE Mixup ---------------------------------
(* Devices holding blocks of examples.  Weights (in parts of Den) are drawn  *)
(* per batch, device or example, put in descending order, and each example   *)
(* takes the first weight of itself, the second of the next in its device... *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt
CONSTANTS Dev, Per, Size, Den
VARIABLES gran, weight,   \* <<device, position>> -> sequence of weights
          mixed,          \* examples done: <<d, p>> -> [example -> weight]
          todo
vars == <<gran, weight, mixed, todo>>
Ex == (0 .. (Dev - 1)) \X (0 .. (Per - 1))
Draws == {w \in [1 .. Size -> 0 .. Den] : FoldSeq(LAMBDA x, y : x + y, 0, w) = Den}
Sorted(w) == \A i \in 1 .. (Size - 1) : w[i] >= w[i + 1]
Group(g, e) == CASE g = "batch" -> 0 [] g = "device" -> e[1] [] g = "example" -> e
Init ==
  /\ gran \in {"batch", "device", "example"}
  /\ weight \in {f \in [Ex -> {w \in Draws : Sorted(w)}] :
                   \A a, b \in Ex : Group(gran, a) = Group(gran, b) => f[a] = f[b]}
  /\ mixed = <<>> /\ todo = Ex
Partner(e, i) == <<e[1], (e[2] + i) % Per>>
Mix == \E e \in todo :
  /\ e = CHOOSE x \in todo : TRUE
  /\ mixed' = [x \in (DOMAIN mixed) \cup {e} |-> IF x # e THEN mixed[x]
               ELSE [o \in Ex |-> FoldSet(LAMBDA i, s : s + (IF Partner(e, i - 1) = o THEN weight[e][i] ELSE 0), 0, 1 .. Size)]]
  /\ todo' = todo \ {e} /\ UNCHANGED <<gran, weight>>
Spec == Init /\ [][Mix]_vars
Total(f, S) == FoldSet(LAMBDA o, s : s + f[o], 0, S)
Convex == \A e \in DOMAIN mixed : Total(mixed[e], Ex) = Den
SameDevice == \A e \in DOMAIN mixed : \A o \in Ex : mixed[e][o] > 0 => o[1] = e[1]
OwnLargest == \A e \in DOMAIN mixed : \A o \in Ex : Size <= Per => mixed[e][e] >= mixed[e][o]
(* With common weights no example is lost: each is used Den times.           *)
Preserved == (todo = {} /\ gran # "example") =>
  \A o \in Ex : FoldSet(LAMBDA e, s : s + mixed[e][o], 0, Ex) = Den
=============================================================================
