------------------------------- MODULE Attack --------------------------------
(* A signed walk of the coordinates of an image, and the counters of many    *)
(* batches with valid and padded images.                                     *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt
CONSTANTS Updates,      \* steps of the walk
          Far,          \* coordinates are in -Far .. Far
          Batches, Size \* batches of the evaluation and their size
VARIABLES x0, x, t, w, a, n,     \* walk: start, place, centre, weight, slope
          todo, tot              \* batches to come; counters
walk == <<x0, x, t, w, a, n>>
vars == <<walk, todo, tot>>

Sign(v) == IF v > 0 THEN 1 ELSE IF v < 0 THEN -1 ELSE 0
(* Gradient of the loss w * (x - t)^2 + a * x; distances in quarters.        *)
Slope(v, centre, weight, slant) == (2 * weight) * (v - centre) + slant
Move(v, centre, weight, slant, step) == v + step * Sign(Slope(v, centre, weight, slant))

(* What one image contributes to the counters.                               *)
Count(im) == IF ~ im.valid THEN [images |-> 0, changes |-> 0, c0 |-> 0, cm |-> 0]
             ELSE [images |-> 1, changes |-> IF im.y0 # im.ym THEN 1 ELSE 0, c0 |-> im.c0, cm |-> im.cm]
Add(p, q) == [images |-> p.images + q.images, changes |-> p.changes + q.changes, c0 |-> p.c0 + q.c0, cm |-> p.cm + q.cm]
Zero == [images |-> 0, changes |-> 0, c0 |-> 0, cm |-> 0]
Images == [valid : BOOLEAN, y0 : 0 .. 1, ym : 0 .. 1, c0 : 0 .. 1, cm : {0}]

Init == /\ x0 \in -Far .. Far /\ x = x0 /\ t \in -Far .. Far /\ w \in -1 .. 1 /\ a \in -1 .. 1 /\ n = 0
        /\ todo = <<>> /\ tot = Zero
Step == /\ n < Updates /\ n' = n + 1 /\ x' = Move(x, t, w, a, 1)
        /\ UNCHANGED <<x0, t, w, a, todo, tot>>
Batch == /\ n = Updates /\ Len(todo) < Batches /\ w = 1 /\ a = 0 /\ t = 0 /\ x0 = 0
         /\ \E b \in [1 .. Size -> Images] :
              /\ todo' = Append(todo, b)
              /\ tot' = Add(tot, FoldSet(LAMBDA i, s : Add(s, Count(b[i])), Zero, 1 .. Size))
         /\ UNCHANGED walk
Next == Step \/ Batch
Spec == Init /\ [][Next]_vars

InBox == x - x0 <= n /\ x0 - x <= n
(* Away from a centre (w > 0) the loss never falls.                          *)
Climbs == [][(w > 0 /\ a = 0) => (x' - t) * (x' - t) >= (x - t) * (x - t)]_vars
AtRest == (Slope(x0, t, w, a) = 0) => x = x0
Within == tot.images <= Size * Len(todo) /\ tot.changes <= tot.images /\ tot.c0 <= tot.images
=============================================================================
