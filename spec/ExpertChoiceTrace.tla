------------------------- MODULE ExpertChoiceTrace --------------------------
EXTENDS TraceLib, ExpertChoiceRules

Failed1(r) ==
  LET g     == r.gates
      P     == Range2(r.placed)
      Q     == Range2(r.weights)
      pairs == {<<p[1], p[2]>> : p \in P}
      cells == {<<p[2], p[3]>> : p \in P}
      where == {<<p[1], p[2], p[3]>> : p \in P}
      E     == Len(g[1])
      sel   == {g[p[1]][p[2]] : p \in pairs}
      cnt   == {NumExperts(g, pairs, s) : s \in DOMAIN g}
      want  == {t \in {1, 2, 4, 8, 16, 32, 64, E} : t <= E}
      ratio == Range2(r.ratios)            \* <<threshold, items>>
  IN  Clause(\A p \in P : p[4] = 1, "ItemDuplicatedOrScaled")
      \cup Clause(Cardinality(cells) = Cardinality(P), "SlotShared")
      \cup Clause(r.shared = 0, "SlotSharedAcrossGroups")
      \cup Clause(Cardinality(pairs) = Cardinality(P), "ItemTwiceAtExpert")
      \cup Clause(r.npos = r.groups * r.C, "BufferShape")
      \cup Clause(\A q \in Q : <<q[1], q[2], q[3]>> \in where,
                  "WeightOnUnacceptedSlot")
      \cup Clause(\A q \in Q : AbsV(q[4] - g[q[1]][q[2]]) <= r.tol,
                  "WeightIsNotGate")
      \cup Clause(\A p \in P : g[p[1]][p[2]] > r.tol =>
                    \E q \in Q : q[1] = p[1] /\ q[2] = p[2] /\ q[3] = p[3],
                  "AcceptedButNotCombined")
      \cup ChoiceFailed(g, r.C, pairs)
      \cup Clause(cnt = {} \/ (r.minexp = MinOf(cnt) /\ r.maxexp = MaxOf(cnt)),
                  "MetricExpertsPerItem")
      \cup Clause(sel = {} \/ (/\ AbsV(r.mingate - MinOf(sel)) <= r.tol
                               /\ AbsV(r.maxgate - MaxOf(sel)) <= r.tol),
                  "MetricSelectedGate")
      \cup Clause(/\ want \subseteq {x[1] : x \in ratio}
                  /\ \A x \in ratio : x[2] = NumAtLeast(g, pairs, x[1]),
                  "MetricRatio")

FailedClauses(r) == Failed1(r)
=============================================================================
