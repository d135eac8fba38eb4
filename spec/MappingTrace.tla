---------------------------- MODULE MappingTrace -----------------------------
(* r.sources, r.targets: [name, shape, dtype, v (flat) or empty].            *)
EXTENDS TraceLib, MapRules
Stride(shape, a) == ProdSeq(SubSeq(shape, a + 1, Len(shape)))
Coord(shape, i, a) == ((i - 1) \div Stride(shape, a)) % shape[a]
InsertAt2(q, a, x) == SubSeq(q, 1, a - 1) \o <<x>> \o SubSeq(q, a, Len(q))
(* Where element i of an array with axis a comes from, in one without it.    *)
Without(shape, i, a) ==
  LET st == Stride(shape, a)
  IN  (((i - 1) \div (st * shape[a])) * st) + ((i - 1) % st) + 1
Bad == [ok |-> FALSE, shape |-> <<>>, v |-> <<>>]
Arr(shape, v) == [ok |-> TRUE, shape |-> shape, v |-> v]
Expand(A, a, reps) ==
  IF ~ A.ok \/ a > Len(A.shape) + 1 THEN Bad
  ELSE LET sh == InsertAt2(A.shape, a, reps)
       IN  Arr(sh, [i \in 1 .. ProdSeq(sh) |-> A.v[Without(sh, i, a)]])
RECURSIVE ExpandAll(_, _, _)
ExpandAll(A, axes, reps) ==
  IF axes = <<>> THEN A ELSE ExpandAll(Expand(A, Head(axes) + 1, Head(reps)), Tail(axes), Tail(reps))
Stack(As, a) ==
  IF (\E i \in DOMAIN As : As[i].shape # As[1].shape) \/ a > Len(As[1].shape) + 1 THEN Bad
  ELSE LET sh == InsertAt2(As[1].shape, a, Len(As))
       IN  Arr(sh, [i \in 1 .. ProdSeq(sh) |-> As[Coord(sh, i, a) + 1].v[Without(sh, i, a)]])
Squeeze(A, a) == IF a > Len(A.shape) \/ A.shape[a] # 1 THEN Bad
                 ELSE Arr(SubSeq(A.shape, 1, a - 1) \o SubSeq(A.shape, a + 1, Len(A.shape)), A.v)
Reshape(A, sh) == IF ProdSeq(sh) # Len(A.v) THEN Bad ELSE Arr(sh, A.v)
(* Linear interpolation of a matrix n1 x n2 to m1 x m2, values times M.      *)
M == 1000
Interpolate(v, n1, n2, m1, m2, i, j) ==
  LET d1 == IF m1 > 1 THEN m1 - 1 ELSE 1
      d2 == IF m2 > 1 THEN m2 - 1 ELSE 1
      p1 == i * (n1 - 1)   p2 == j * (n2 - 1)
      f1 == p1 \div d1     f2 == p2 \div d2
      r1 == p1 % d1        r2 == p2 % d2
      g1 == IF f1 + 1 < n1 THEN f1 + 1 ELSE f1
      g2 == IF f2 + 1 < n2 THEN f2 + 1 ELSE f2
      At(x, y) == v[(x * n2) + y + 1]
  IN  (M * ((At(f1, f2) * (d1 - r1) * (d2 - r2)) + (At(g1, f2) * r1 * (d2 - r2))
            + (At(f1, g2) * (d1 - r1) * r2) + (At(g1, g2) * r1 * r2))) \div (d1 * d2)
(* Zooms are of vectors or matrices; values come out times M.                *)
Zoom(A, sh) ==
  IF Len(A.shape) # Len(sh) THEN Bad
  ELSE LET two == Len(sh) = 2
           n1 == IF two THEN A.shape[1] ELSE 1    n2 == A.shape[Len(sh)]
           m1 == IF two THEN sh[1] ELSE 1         m2 == sh[Len(sh)]
       IN  Arr(sh, [i \in 1 .. (m1 * m2) |-> Interpolate(A.v, n1, n2, m1, m2, (i - 1) \div m2, (i - 1) % m2)])
IsSquare(n) == \E k \in 0 .. n : k * k = n
Root(n) == CHOOSE k \in 0 .. n : k * k <= n /\ (k + 1) * (k + 1) > n
Vit(A, sh, old) ==    \* old: the value of the target, times M, or <<>>
  IF Len(A.shape) # 3 \/ Len(sh) # 3 THEN Bad
  ELSE LET n == A.shape[2]  m == sh[2]  c == sh[3]
       IN  IF A.shape[1] # 1 \/ sh[1] # 1 \/ A.shape[3] # c
              \/ ~ (IsSquare(n) \/ IsSquare(n - 1)) \/ ~ (IsSquare(m) \/ IsSquare(m - 1)) THEN Bad
           ELSE LET ts == IF IsSquare(n) THEN 0 ELSE 1
                    tt == IF IsSquare(m) THEN 0 ELSE 1
                    a == Root(n)  b == Root(m)
                    Chan(k) == [i \in 1 .. (a * a) |-> A.v[((i - 1 + ts) * c) + k]]
                IN  Arr(sh, [i \in 1 .. (m * c) |->
                          LET pos == (i - 1) \div c  k == ((i - 1) % c) + 1
                          IN  IF tt = 1 /\ pos = 0
                              THEN IF ts = 1 THEN M * A.v[k] ELSE IF old = <<>> THEN -1 ELSE old[k]
                              ELSE Interpolate(Chan(k), a, a, b, b, (pos - tt) \div b, (pos - tt) % b)])
Times(A) == IF A.ok THEN Arr(A.shape, [i \in DOMAIN A.v |-> M * A.v[i]]) ELSE A
Broadcastable(from, to) ==
  Len(from) <= Len(to) /\ \A k \in 1 .. Len(from) :
    from[Len(from) - k + 1] \in {1, to[Len(to) - k + 1]}
RECURSIVE SourceIndex(_, _, _, _)
SourceIndex(from, to, i, k) ==     \* row-major, without + 1
  IF k = 0 THEN 0
  ELSE LET t == Len(to) - Len(from) + k
       IN  (IF from[k] = 1 THEN 0 ELSE Coord(to, i, t) * Stride(from, k)) + SourceIndex(from, to, i, k - 1)
Broadcast(A, sh) == Arr(sh, [i \in 1 .. ProdSeq(sh) |-> A.v[SourceIndex(A.shape, sh, i, Len(A.shape)) + 1]])
Outcome(r) ==
  LET S == DOMAIN r.sources
      F(i) == First(r.rules, r.sources[i].name)
      Dropped(i) == F(i) # 0 /\ r.rules[F(i)].kind = "drop"
      used == {i \in S : ~ Dropped(i)}
      Dst(i) == IF F(i) = 0 THEN r.sources[i].name ELSE Rename(r.rules[F(i)].p, r.sources[i].name)
      T(i) == IF \E t \in DOMAIN r.targets : r.targets[t].name = Dst(i)
              THEN CHOOSE t \in DOMAIN r.targets : r.targets[t].name = Dst(i) ELSE 0
      Stacks(i) == F(i) # 0 /\ r.rules[F(i)].kind = "stack"
      Into(t) == {i \in used : T(i) = t}
      Ordered(I) == SetToSortSeq(I, LAMBDA x, y : Before(r.sources[x].name, 1, r.sources[y].name, 1))
      lost == (r.strictS /\ \E i \in S : F(i) = 0)
              \/ (\E i \in used : T(i) = 0)
              \/ (\E t \in DOMAIN r.targets : Cardinality(Into(t)) > 1 /\ \E i \in Into(t) : ~ Stacks(i))
              \/ (\E t \in DOMAIN r.targets : \E i \in Into(t) : r.sources[i].empty # r.targets[t].empty)
              \/ (r.strictT /\ \E t \in DOMAIN r.targets : Into(t) = {} /\ ~ r.targets[t].empty)
      Value(t) ==
        LET q == Ordered(Into(t))
            i == q[1]
            A == Arr(r.sources[i].shape, r.sources[i].v)
            ru == r.rules[F(i)]
            sh == r.targets[t].shape
        IN  IF F(i) = 0 THEN Times(A)
            ELSE CASE ru.kind = "copy"    -> Times(A)
                   [] ru.kind = "reshape" -> Times(Reshape(A, IF ru.given THEN ru.shape ELSE sh))
                   [] ru.kind = "squeeze" -> Times(Squeeze(A, ru.axes[1] + 1))
                   [] ru.kind = "expand"  -> Times(ExpandAll(A, ru.axes, ru.reps))
                   [] ru.kind = "stack"   -> Times(Stack([k \in DOMAIN q |-> Arr(r.sources[q[k]].shape, r.sources[q[k]].v)], ru.axes[1] + 1))
                   [] ru.kind = "zoom"    -> Zoom(A, sh)
                   [] ru.kind = "vit"     -> Vit(A, sh, IF r.targets[t].struct THEN <<>> ELSE [k \in DOMAIN r.targets[t].v |-> M * r.targets[t].v[k]])
      filled == {t \in DOMAIN r.targets : Into(t) # {} /\ ~ r.targets[t].empty}
      Fits(t) == LET A == Value(t) IN
        /\ A.ok
        /\ (A.shape = r.targets[t].shape \/ (~ r.strictShape /\ Broadcastable(A.shape, r.targets[t].shape)))
        /\ (~ r.strictDtype \/ \A i \in Into(t) : r.sources[i].dtype = r.targets[t].dtype)
  IN  IF lost \/ \E t \in filled : ~ Fits(t) THEN [rejected |-> TRUE, filled |-> {}, v |-> <<>>]
      ELSE [rejected |-> FALSE, filled |-> filled,
            v |-> [t \in DOMAIN r.targets |-> IF t \in filled THEN Broadcast(Value(t), r.targets[t].shape).v ELSE <<>>]]
Near(a, b) == Len(a) = Len(b) /\ \A i \in DOMAIN a : a[i] = -1 \/ AbsV(a[i] - b[i]) <= 2
Map(r) ==
  LET o == Outcome(r)
  IN  Clause(o.rejected = r.rejected, IF r.rejected THEN "Accepts" ELSE "Rejects")
      \cup IF o.rejected \/ r.rejected THEN {}
           ELSE UNION {LET g == r.got[t]  want == r.targets[t] IN
                  Clause(g.empty = want.empty, "KeepsStructure")
                  \cup IF want.empty THEN {}
                       ELSE Clause(g.shape = want.shape /\ g.dtype = want.dtype, "ShapeAndDtype")
                            \cup Clause(g.sharded, "Sharding")
                            \cup (IF t \in o.filled THEN Clause(~ g.struct /\ Near(o.v[t], g.v), "Value")
                                  ELSE Clause(g.struct = want.struct /\ (want.struct \/ Near([k \in DOMAIN want.v |-> M * want.v[k]], g.v)), "Kept"))
                  : t \in DOMAIN r.targets}
FailedClauses(r) ==
  CASE r.op = "map" -> Map(r)
    [] OTHER -> {"Unknown"}
=============================================================================
