---------------------------- MODULE RoutingTrace ----------------------------
(* Judge of recorded routings: what the real dispatcher delivered to each    *)
(* expert buffer (placed) and how much of each buffer position flows back    *)
(* to each item (weights), against RoutingRules.                             *)
EXTENDS TraceLib, RoutingRules

FailedClauses(r) ==
  LET g      == r.gates
      P      == Range2(r.placed)           \* <<item, expert, position, n>>
      Q      == Range2(r.weights)
      pairs  == {<<p[1], p[2]>> : p \in P}
      cells  == {<<p[2], p[3]>> : p \in P}
      where  == {<<p[1], p[2], p[3]>> : p \in P}
  IN  Clause(\A p \in P : p[4] = 1, "ItemDuplicatedOrScaled")
      \cup Clause(Cardinality(cells) = Cardinality(P), "SlotShared")
      \cup Clause(r.shared = 0, "SlotSharedAcrossGroups")
      \cup Clause(Cardinality(pairs) = Cardinality(P), "ItemTwiceAtExpert")
      \cup Clause(r.npos = r.groups * r.C, "BufferShape")
      \cup Clause(\A q \in Q : <<q[1], q[2], q[3]>> \in where,
                  "WeightOnUnacceptedSlot")
      \cup Clause(\A q \in Q : AbsV(q[4] - g[q[1]][q[2]]) <= r.tol, "WeightIsNotGate")
      \cup Clause(\A p \in P : g[p[1]][p[2]] # 0 =>
                    \E q \in Q : q[1] = p[1] /\ q[2] = p[2] /\ q[3] = p[3],
                  "AcceptedButNotCombined")
      \cup OutcomeFailed(g, r.K, r.C, r.bpr, pairs)
=============================================================================
