---------------------------- MODULE OptChainTrace ----------------------------
(* Histories of updates.  Parameters are times S; gradients are integers.    *)
EXTENDS TraceLib, Regex, OptRules
S == 4096
FactorOf(rules, t, none) ==
  LET i == FirstFound([j \in DOMAIN rules |-> rules[j].p], t) IN IF i = 0 THEN none ELSE rules[i].v
(* Halves: scales are in halves, decays in 1/16.                             *)
ScaleOf(r, t) == FactorOf(r.scale, t, 2)
DecayOf(r, t) == IF r.decayall >= 0 THEN r.decayall ELSE FactorOf(r.decay, t, 0)
FrozenIn(r, t) ==
  CASE r.freeze = "none"      -> FALSE
    [] r.freeze = "frozen"    -> \E i \in DOMAIN r.pats : Search(r.pats[i], t)
    [] r.freeze = "trainable" -> ~ \E i \in DOMAIN r.pats : Search(r.pats[i], t)
RECURSIVE Newton(_, _)
Newton(n, x) == LET y == (x + (n \div x)) \div 2 IN IF y >= x THEN x ELSE Newton(n, y)
ISqrt(n) == IF n = 0 THEN 0 ELSE Newton(n, IF n < 65536 THEN n ELSE 65536)
Sgn(x) == IF x < 0 THEN -1 ELSE IF x > 0 THEN 1 ELSE 0
DivR(a, b) == Sgn(a) * Sgn(b) * (AbsV(a) \div AbsV(b))
(* Per leaf, per element: the gradient after scaling and clipping, times S.  *)
Clipped(r, g) ==
  LET h == [x \in DOMAIN g |-> [e \in DOMAIN g[x] |-> g[x][e] * ScaleOf(r, r.paths[x])]]   \* halves
  IN  CASE r.clip = "none" -> [x \in DOMAIN g |-> [e \in DOMAIN g[x] |-> (S \div 2) * h[x][e]]]
        [] r.clip = "abs"  -> [x \in DOMAIN g |-> [e \in DOMAIN g[x] |->
             (S \div 2) * (IF h[x][e] > 2 * r.limit THEN 2 * r.limit
                           ELSE IF h[x][e] < 0 - (2 * r.limit) THEN 0 - (2 * r.limit) ELSE h[x][e])]]
        [] r.clip = "norm" ->
             LET n == SumSeq([x \in DOMAIN h |-> SumSeq([e \in DOMAIN h[x] |-> h[x][e] * h[x][e]])])
                 root == ISqrt(n * 16384)      \* 256 times the norm
             IN  IF n <= 4 * r.limit * r.limit THEN [x \in DOMAIN g |-> [e \in DOMAIN g[x] |-> (S \div 2) * h[x][e]]]
                 ELSE [x \in DOMAIN g |-> [e \in DOMAIN g[x] |->
                        DivR(h[x][e] * r.limit * S * 128, root)]]
(* The direction: state is <<m, v>> per element.                             *)
Rate == <<0, 426, 585, 670>>       \* 1 - t^-0.8, times 1000
Direct(r, t, st, c) ==
  CASE r.opt = "sgd" ->
         LET m == c + (r.mu * st[1]) \div 2
         IN  [st |-> <<m, 0>>, u |-> IF r.nesterov THEN c + (r.mu * m) \div 2 ELSE m]
    [] r.opt = "adam" ->                 \* b1 = 1/2, b2 = 3/4
         LET m == (st[1] + c) \div 2
             c8 == c \div 64                       \* times 64
             v == ((3 * st[2]) + (c8 * c8)) \div 4 \* times 4096
             b1 == <<2, 4, 8, 16>>[t]              \* 1 - 2^-t = (b1 - 1) / b1
             n2 == <<1, 7, 37, 175>>[t]            \* 1 - (3/4)^t
             d2 == <<4, 16, 64, 256>>[t]
             mh == (m * b1) \div (b1 - 1)
             root == ISqrt((v * d2) \div n2)       \* times 64
         IN  [st |-> <<m, v>>, u |-> IF root = 0 THEN 0 ELSE DivR(mh * 64, root)]
    [] r.opt = "big_vision_adafactor" ->
         LET c8 == c \div 64
             d == Rate[t]
             v == ((d * st[2]) + ((1000 - d) * c8 * c8)) \div 1000
             root == ISqrt(v)
             f == IF root = 0 THEN 0 ELSE DivR(c * 64, root)
             m == IF r.mu = 0 THEN f ELSE (st[1] + f) \div 2
         IN  [st |-> <<m, v>>, u |-> m]
LrOf(r, t) == IF r.lr > 0 THEN r.lr ELSE <<0, 8, 16, 8>>[t]     \* 1/16
Tolerance(r) ==
  IF r.opt # "sgd" THEN 140 ELSE 2 + (IF r.clip = "norm" THEN 16 * r.limit * Len(r.seq) ELSE 0)
RECURSIVE Walk(_, _, _)
Walk(r, t, st) ==    \* st[x][e]
  IF t > Len(r.seq) THEN {}
  ELSE LET s == r.seq[t]
           c == Clipped(r, s.g)
           d == [x \in DOMAIN c |-> [e \in DOMAIN c[x] |-> Direct(r, t, st[x][e], c[x][e])]]
           Want(x, e) == (LrOf(r, t) * (d[x][e].u + ((DecayOf(r, r.paths[x]) * s.before[x][e]) \div 16))) \div 16
       IN  UNION {IF FrozenIn(r, r.paths[x])
                  THEN Clause(s.same[x], "FrozenStays")
                  ELSE Clause(\A e \in DOMAIN c[x] :
                                AbsV((s.before[x][e] - s.after[x][e]) - Want(x, e)) <= Tolerance(r) + 1, "Update")
                       \* A trainable parameter moves.
                       \cup Clause(\A e \in DOMAIN c[x] : AbsV(Want(x, e)) > 600 => ~ s.same[x], "Trains")
                  : x \in DOMAIN c}
           \cup Walk(r, t + 1, [x \in DOMAIN c |-> [e \in DOMAIN c[x] |-> d[x][e].st]])
History(r) == Walk(r, 1, [x \in DOMAIN r.paths |-> [e \in DOMAIN r.seq[1].g[x] |-> <<0, 0>>]])
FailedClauses(r) ==
  CASE r.op = "history" -> History(r) \cup Clause(r.struct, "KeepsStructure") \cup Clause(r.jit, "SameCompiled")
                           \cup Clause(\A t \in DOMAIN r.seq : r.seq[t].lr = LrOf(r, t) * 1000, "RateInState")
    [] r.op = "reject"  -> Clause(r.rejected = r.bad, "Rejects")
    [] OTHER            -> {"Unknown"}
=============================================================================
