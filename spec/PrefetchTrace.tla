---------------------------- MODULE PrefetchTrace ----------------------------
EXTENDS TraceLib
Lo(a, b) == IF a < b THEN a ELSE b
(* events: what each request of the consumer of source `it` gave: kind       *)
(* "elem" (the element and what the devices hold), "end" or "error"; taken:  *)
(* elements that source had handed over when the request returned.           *)
Of(r, it) == SelectSeq(r.events, LAMBDA e : e.it = it)
Source(r, it) ==
  LET s == r.src[it]  E == Of(r, it)
      cap == IF s.size <= 0 THEN 1 ELSE s.size
      D == {i \in DOMAIN E : E[i].kind = "elem"}
      k == Cardinality(D)
  IN  Clause(\A i \in DOMAIN E : E[i].kind = "elem" <=> i <= k, "Prefix")
      \cup Clause(\A i \in D : E[i].id = i, "InOrder")
      \cup Clause(\A i \in D : E[i].taken <= i + (IF s.size <= 0 THEN 0 ELSE s.size), "Ahead")
      \cup Clause(\A i \in D : s.err = 0 => E[i].taken >= Lo(i + cap - 1, s.n), "Filled")
      \cup Clause(Len(E) > k => E[k + 1].kind = (IF s.err = 0 THEN "end" ELSE "error"), "EndOrError")
      \cup Clause(Len(E) > k /\ s.err = 0 => k = s.n, "All")
      \cup Clause(Len(E) > k /\ s.err # 0 =>
                    /\ k < s.err
                    /\ k + (IF s.size <= 0 THEN 0 ELSE s.size) >= s.err - 1, "ErrorPlace")
      \cup Clause(\A i \in D : E[i].host, "HostValuesKept")
Iter(r) == UNION {Source(r, it) : it \in DOMAIN r.src}
(* shards: rows (numbered from 0, of this process) that local device number  *)
(* i of the mesh holds; columns as they were.                                *)
Shards(r) ==
  LET per == r.rows \div r.local IN
  Clause(~ r.rejected <=> r.rows % r.local = 0, "Divides")
  \cup IF r.rejected THEN {}
       ELSE Clause(Len(r.shards) = r.local /\ \A d \in DOMAIN r.shards :
                     r.shards[d] = [i \in 1 .. per |-> (d - 1) * per + i - 1], "Slices")
            \cup Clause(r.shape = <<r.rows * r.procs>> \o r.rest, "GlobalShape")
            \cup Clause(r.values, "Values")
            \cup Clause(r.positions = [i \in 1 .. Len(r.positions) |-> r.mesh[i] * per], "Positions")
            \cup Clause(r.sshape = r.shape /\ r.samesharding /\ r.sdtype = r.dtype, "Struct")
FailedClauses(r) ==
  CASE r.op = "iter"   -> Iter(r)
    [] r.op = "shards" -> Shards(r)
    [] OTHER           -> {"Unknown"}
=============================================================================
