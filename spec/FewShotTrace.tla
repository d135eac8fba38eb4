---------------------------- MODULE FewShotTrace -----------------------------
(* The features of an example are k affine copies of one integer x, so the   *)
(* regularised least squares on the whitened features and a large constant   *)
(* has a closed form: with n examples of sum s, X = n x - s, V the sum of    *)
(* X^2, and per class c the targets y = 1 (label c) or -1, the score of c is *)
(* (up to a common positive factor)                                          *)
(*    X * (sum of X_i y_i) * n^2 * k + (sum of y_i) * V * (k n + l2)         *)
EXTENDS TraceLib
Classes(r) == 0 .. (r.classes - 1)
Y(e, c) == IF e[2] = c THEN 1 ELSE -1
Fit(r, tr) ==      \* tr: sequence of <<x, label>>
  LET n == Len(tr)
      s == SumSeq([i \in DOMAIN tr |-> tr[i][1]])
      XX(i) == n * tr[i][1] - s
  IN  [n |-> n, s |-> s, V |-> SumSeq([i \in DOMAIN tr |-> XX(i) * XX(i)]),
       C |-> [c \in Classes(r) |-> SumSeq([i \in DOMAIN tr |-> XX(i) * Y(tr[i], c)])],
       S |-> [c \in Classes(r) |-> SumSeq([i \in DOMAIN tr |-> Y(tr[i], c)])]]
(* What can be said of the prediction of a test example: 1 right, 0 wrong,   *)
(* 2 undecided (too close for floating point, or nothing to fit).            *)
Right(r, f, l2, e) ==
  LET X == f.n * e[1] - f.s
      A(c) == X * f.C[c] * f.n * f.n * r.k
      B(c) == f.S[c] * f.V * (r.k * f.n + l2)
      T(c) == A(c) + B(c)
      tol == MaxOf({AbsV(A(c)) + AbsV(B(c)) : c \in Classes(r)}) \div 20
  IN  IF f.n < 2 \/ f.V = 0 THEN 2
      ELSE IF \E c \in Classes(r) : T(c) - T(e[2]) > tol THEN 0
      ELSE IF \A c \in Classes(r) \ {e[2]} : T(e[2]) - T(c) > tol THEN 1
      ELSE 2
Count(r, d, f, l2) ==
  LET v == [i \in DOMAIN d.test |-> Right(r, f, l2, d.test[i])] IN
  [lo |-> Cardinality({i \in DOMAIN v : v[i] = 1}),
   hi |-> Cardinality({i \in DOMAIN v : v[i] # 0})]
OfClass(d, c) == {i \in DOMAIN d.train : d.train[i][2] = c}
(* Orders of the examples of a class, as sequences of their values.          *)
Orders(d, c) == LET S == OfClass(d, c) IN
  {[i \in DOMAIN f |-> <<d.train[f[i]][1], c>>] :
     f \in {g \in [1 .. Cardinality(S) -> S] : \A i, j \in DOMAIN g : g[i] = g[j] => i = j}}
First(s, k) == SubSeq(s, 1, IF k < Len(s) THEN k ELSE Len(s))
Sel(r, o, shot) == FoldSeq(LAMBDA x, y : x \o y, <<>>, [c \in 1 .. r.classes |-> First(o[c], shot)])
(* One data set, any numbers of shots: some order of the examples of each    *)
(* class explains all that was reported.                                     *)
Explains(r, d, o) ==
  \A j \in DOMAIN r.shots :
    LET f == Fit(r, Sel(r, o, r.shots[j]))
        at == [q \in DOMAIN r.l2 |-> Count(r, d, f, r.l2[q])]
        b == r.best[j]
    IN  /\ b \in DOMAIN r.l2
        /\ at[b].lo <= d.acc[j] /\ d.acc[j] <= at[b].hi
        /\ \A q \in DOMAIN r.l2 : at[q].lo <= at[b].hi
Subset(r) ==
  LET d == r.sets[1]
      per == [c \in Classes(r) |-> Orders(d, c)]
      all == IF r.classes = 2 THEN {<<a, b>> : a \in per[0], b \in per[1]}
             ELSE {<<a, b, c>> : a \in per[0], b \in per[1], c \in per[2]}
  IN  Clause(\E o \in all : Explains(r, d, o), "ShotsOfEveryClass")
(* All examples are used: accuracies, and the joint choice of the strength.  *)
RankLo(at, q) == Cardinality({p \in DOMAIN at : at[p].hi < at[q].lo})
RankHi(at, q) == Cardinality({p \in DOMAIN at : p # q /\ at[p].lo <= at[q].hi})
Full(r) ==
  LET fits == [i \in DOMAIN r.sets |-> Fit(r, r.sets[i].train)]
      at == [i \in DOMAIN r.sets |-> [q \in DOMAIN r.l2 |-> Count(r, r.sets[i], fits[i], r.l2[q])]]
      lo(q) == SumOver(DOMAIN at, LAMBDA i : RankLo(at[i], q))
      hi(q) == SumOver(DOMAIN at, LAMBDA i : RankHi(at[i], q))
  IN  Clause(\A j \in DOMAIN r.shots : r.best[j] \in DOMAIN r.l2, "OneOfThem")
      \cup Clause(\A j \in DOMAIN r.shots : \A i \in DOMAIN r.sets :
                    /\ at[i][r.best[j]].lo <= r.sets[i].acc[j]
                    /\ r.sets[i].acc[j] <= at[i][r.best[j]].hi, "Accuracy")
      \cup Clause(\A j \in DOMAIN r.shots : \A q \in DOMAIN r.l2 : lo(q) <= hi(r.best[j]), "BestJointly")
(* Reports of repeated evaluations.                                          *)
Reports(r) ==
  Clause(r.same, "Deterministic")
  \cup Clause(r.written, "Written")
  \cup Clause(AbsV(r.main * Len(r.parts) - SumSeq(r.parts)) <= 2 * Len(r.parts), "MainTask")
  \cup Clause(r.names, "Names")
FailedClauses(r) ==
  CASE r.op = "subset"  -> Subset(r)
    [] r.op = "full"    -> Full(r)
    [] r.op = "reports" -> Reports(r)
    [] OTHER            -> {"Unknown"}
=============================================================================
