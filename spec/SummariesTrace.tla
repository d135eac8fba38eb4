--------------------------- MODULE SummariesTrace ----------------------------
EXTENDS TraceLib, Regex
S == INSTANCE Summaries WITH NLeaves <- 0, NRules <- 0, NShapes <- 0, Most <- 0, match <- 0, shape <- 0, at <- 0, out <- 0, state <- 0
(* leaves: [name: chars, shape, v]; rules: [p, ts: <<[op, all, axes, text]>>]*)
(* got: [name: string, v: value in 1/100, shape].                            *)
Ops == {"sum", "mean", "min", "max", "norm", "std"}
Ndim(a) == Len(a.shape)
AxisOf(n, x) == IF x < 0 THEN x + n + 1 ELSE x + 1
Axes(a, t) == IF t.all THEN DOMAIN a.shape ELSE { AxisOf(Ndim(a), t.axes[i]) : i \in DOMAIN t.axes }
BadAxes(a, t) == ~ t.all /\ (Axes(a, t) \ DOMAIN a.shape # {} \/ Cardinality(Axes(a, t)) # Len(t.axes))
(* Result of the transformations but a last norm or std: exact.              *)
RECURSIVE Apply(_, _)
Apply(a, ts) == IF ts = <<>> \/ Head(ts).op \in {"norm", "std"} THEN a
                ELSE Apply(S!Reduce(a, Head(ts).op, Axes(a, Head(ts))), Tail(ts))
Bad(a, ts) == \E i \in DOMAIN ts : ts[i].op \notin Ops \/ BadAxes(a, ts[i])
LastOf(ts) == IF ts = <<>> THEN [op |-> ""] ELSE ts[Len(ts)]
FinalShape(a, ts) == LET b == Apply(a, ts) IN
  IF LastOf(ts).op \in {"norm", "std"} THEN S!Keep(b.shape, Axes(b, LastOf(ts))) ELSE b.shape
TooMany(r, a, ts) == S!Prod(FinalShape(a, ts)) > r.most
Hits(r) == { <<i, j>> \in (DOMAIN r.leaves) \X (DOMAIN r.rules) : Search(r.rules[j].p, r.leaves[i].name) }
MustReject(r) == \E h \in Hits(r) : LET a == r.leaves[h[1]] ts == r.rules[h[2]].ts IN Bad(a, ts) \/ TooMany(r, a, ts)

(* An unknown operation may be rejected before a leaf is found for it.       *)
Unknown(r) == \E j \in DOMAIN r.rules : \E i \in DOMAIN r.rules[j].ts : r.rules[j].ts[i].op \notin Ops

(* Value of component k of the summary, v in hundredths.                     *)
Right(a, ts, k, v) ==
  LET b == Apply(a, ts)  t == LastOf(ts) IN
  IF t.op = "norm" THEN v >= 0 /\ AbsV((v * v) - (S!Squares(b, S!Group(b, Axes(b, t), k)) * 10000)) <= 2 * v + 2
  ELSE IF t.op = "std" THEN
    LET J == S!Group(b, Axes(b, t), k)
        n == Cardinality(J)
        var == (n * S!Squares(b, J)) - (S!Total(b, J) * S!Total(b, J))
        u == v \div 10                \* tenths
    IN v >= 0 /\ AbsV((u * u * n * n) - (var * 100)) <= n * n * (2 * u + 2)
  ELSE v = 100 * b.v[k]

Brackets(s, k) == LET x == S!Shown(s, S!Index(s, k - 1)) IN
  IF x = <<>> THEN "" ELSE "[" \o FoldSeq(LAMBDA d, acc : acc \o "," \o ToString(d), ToString(Head(x)), Tail(x)) \o "]"
Suffix(ts) == FoldSeq(LAMBDA t, acc : acc \o "_" \o t.op \o t.text, "", ts)

RECURSIVE Reports(_, _, _)
Reports(r, i, j) ==   \* what is left to report from leaf i, rule j on
  IF i > Len(r.leaves) THEN <<>>
  ELSE IF j > Len(r.rules) THEN Reports(r, i + 1, 1)
  ELSE (IF <<i, j>> \in Hits(r)
        THEN [k \in 1 .. S!Prod(FinalShape(r.leaves[i], r.rules[j].ts)) |-> <<i, j, k>>]
        ELSE <<>>) \o Reports(r, i, j + 1)

FailedClauses(r) ==
  CASE r.op = "summary" ->
    Clause((MustReject(r) => r.rejected) /\ (r.rejected => MustReject(r) \/ Unknown(r)), "Accepts") \cup
    (IF r.rejected \/ MustReject(r) THEN {} ELSE
      LET w == Reports(r, 1, 1) IN
      Clause(Len(w) = Len(r.got), "Reported") \cup
      (IF Len(w) # Len(r.got) THEN {} ELSE
        LET NameOf(n) == r.leaves[w[n][1]].text \o Suffix(r.rules[w[n][2]].ts) \o Brackets(FinalShape(r.leaves[w[n][1]], r.rules[w[n][2]].ts), w[n][3])
            names == [n \in DOMAIN w |-> NameOf(n)]
            Times(s, x) == Cardinality({n \in DOMAIN s : s[n] = x})
            shown == [n \in DOMAIN r.got |-> r.got[n].name]
        IN
        (* In any order; reports of the same name have the same value.       *)
        Clause(\A n \in DOMAIN w : Times(names, names[n]) = Times(shown, names[n]), "Names") \cup
        Clause(\A n \in DOMAIN w : \A q \in DOMAIN shown : shown[q] = names[n] =>
                 Right(r.leaves[w[n][1]], r.rules[w[n][2]].ts, w[n][3], r.got[q].v), "Values") \cup
        Clause(\A n \in DOMAIN w : r.got[n].shape = <<>>, "Scalars"))) \cup
    Clause(r.again, "Again")
  [] OTHER -> {"Unknown"}
=============================================================================
