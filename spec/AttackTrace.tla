----------------------------- MODULE AttackTrace -----------------------------
EXTENDS TraceLib
A == INSTANCE Attack WITH Updates <- 0, Far <- 0, Batches <- 0, Size <- 0, x0 <- 0, x <- 0, t <- 0, w <- 0, a <- 0, n <- 0, todo <- 0, tot <- 0

RECURSIVE Walk(_, _, _, _, _, _)
Walk(v, centre, weight, slant, step, k) ==
  IF k = 0 THEN v ELSE Walk(A!Move(v, centre, weight, slant, step), centre, weight, slant, step, k - 1)

(* pgd: images, centres in units of 1/64; weights per class and coordinate.  *)
Weight(r, i, j) == r.weight[r.labels[i]][j]
Slant(r, j) == IF r.aux THEN 64 * r.slant[j] ELSE 0
Target(r, i, j) == Walk(r.images[i][j], r.centre[j], Weight(r, i, j), Slant(r, j), r.step, r.updates)
Distinct(s) == Cardinality(Range2(s)) = Len(s)

Attacked(r) ==
  \A i \in DOMAIN r.images : \A j \in DOMAIN r.images[i] : r.got[i][j] = Target(r, i, j)

Near(p, q, tol) == AbsV(p - q) <= tol
Images(r) == UNION { {<<b, i>> : i \in DOMAIN r.batches[b]} : b \in DOMAIN r.batches }
Im(r, k) == r.batches[k[1]][k[2]]
Total(r) == FoldSet(LAMBDA k, s : A!Add(s, A!Count(Im(r, k))), A!Zero, Images(r))
SumValid(r, f(_)) == FoldSet(LAMBDA k, s : s + (IF Im(r, k).valid THEN f(Im(r, k)) ELSE 0), 0, Images(r))
(* Overlap of the experts of each token before and after, in units of 1/840  *)
(* of an image: the mean over the tokens of |A /\ B| / |A \/ B|.             *)
Overlap(p, q) == LET s == Range2(p) t == Range2(q) IN
  IF s \cup t = {} THEN 0 ELSE (5040 * Cardinality(s \cap t)) \div Cardinality(s \cup t)
ImageOverlap(p, q) == FoldSet(LAMBDA k, s : s + Overlap(p[k], q[k]), 0, DOMAIN p)
(* Compared with sums times 5040: times tokens, to avoid a division.         *)
OverlapOf(r, name) == SumValid(r, LAMBDA im : ImageOverlap(im.before[name], im.after[name]))

Counters(r) ==
  LET c == Total(r) IN
  Clause(r.images = c.images, "Images") \cup
  Clause(r.changes = c.changes, "Changes") \cup
  Clause(r.correct = <<c.c0, c.cm>>, "Correct") \cup
  Clause(Near(r.loss[1], SumValid(r, LAMBDA im : im.l0), r.tol) /\ Near(r.loss[2], SumValid(r, LAMBDA im : im.lm), r.tol), "Loss") \cup
  Clause(\A k \in DOMAIN r.routers : Near(r.overlap[k] * r.tokens, OverlapOf(r, r.routers[k]), 60 + r.tokens), "Overlap")

FailedClauses(r) ==
  CASE r.op = "pgd" ->
    Clause(Attacked(r), "Walk") \cup
    Clause(r.streams = 0 \/ (Len(r.used) = r.updates /\ Distinct(r.used \o <<r.before, r.after>>)), "Streams") \cup
    Clause(r.names = r.namesAfter, "StreamNames")
  [] r.op = "train" ->
    Clause(r.wrapped = (r.updates > 0 /\ ~ r.off), "Wrapped") \cup
    (IF r.wrapped THEN Clause(Attacked(r), "Walk") \cup Clause(Distinct(r.used \o <<r.before, r.after>>), "Streams")
     ELSE Clause(r.got = r.images, "Walk") \cup Clause(r.after = r.before, "Streams")) \cup
    Clause(r.labelsAfter = r.labels, "Labels") \cup
    Clause(r.paramsKept /\ r.extraKept, "Passed")
  [] r.op = "count" -> Counters(r)
  [] r.op = "masked" ->
    (* Outputs for padded images are zero, those for valid ones are kept. *)
    Clause(\A i \in DOMAIN r.valid : r.out[i] = IF r.valid[i] THEN r.given[i] ELSE [j \in DOMAIN r.given[i] |-> 0], "Mask")
  [] r.op = "weights" ->
    (* The experts that are listed are those that contribute to the output.  *)
    Clause(\A i \in DOMAIN r.listed : \A e \in DOMAIN r.listed[i] : Near(r.listed[i][e], r.combined[i][e], 2), "Selected")
  [] r.op = "run" ->
    Counters(r) \cup
    Clause(\A k \in DOMAIN r.moved : r.moved[k] <= r.radius + 2, "Radius") \cup
    Clause(\A k \in Images(r) : ~ Im(r, k).valid \/ (Im(r, k).y0 = Im(r, k).ref0 /\ Near(Im(r, k).l0, Im(r, k).lref0, 20)), "BeforeIsModel") \cup
    Clause(\A k \in Images(r) : ~ Im(r, k).valid \/ (Im(r, k).ym = Im(r, k).refm /\ Near(Im(r, k).lm, Im(r, k).lrefm, 20)), "AfterIsModel") \cup
    Clause(\A k \in Images(r) : ~ Im(r, k).valid \/
             (Im(r, k).before = Im(r, k).refBefore /\ Im(r, k).after = Im(r, k).refAfter), "Routing") \cup
    Clause(\A i \in DOMAIN r.scalars : r.scalars[i].images > 0 =>
             LET d == r.scalars[i] IN
             Near(d.error * r.images, (r.images - r.correct[IF i = 1 THEN 1 ELSE 2]) * 10000, 2 * r.images) /\
             Near(d.loss * r.images, r.loss[IF i = 1 THEN 1 ELSE 2], 2 * r.images + 2), "Scalars") \cup
    Clause(r.at = <<0, r.updates>>, "ScalarSteps") \cup
    Clause(Near(r.shift * r.images, r.changes * 10000, 2 * r.images), "ChangeRate") \cup
    Clause(\A k \in DOMAIN r.routers : Near(r.rerouted[k] * r.images, 10000 * r.images - (r.overlap[k] * 10000) \div 5040, 3 * r.images), "RoutingRate") \cup
    Clause(r.orderKept, "Order")
  [] OTHER -> {"Unknown"}
=============================================================================
