------------------------- MODULE EvalPipelineTrace --------------------------
EXTENDS TraceLib, EvalRules
(* got: per process, per batch, <<id, valid>> of every position; members:    *)
(* examples of the split; wanted: those which must be seen as valid.         *)
Eval(r) ==
  LET all == UNION {UNION {{<<p, b, i>> : i \in DOMAIN r.got[p][b]} : b \in DOMAIN r.got[p]}
                    : p \in DOMAIN r.got}
      At(x) == r.got[x[1]][x[2]][x[3]]
      ok == {x \in all : At(x)[2] = 1}
  IN  Clause(Len(r.got) = r.P, "Processes")
      \cup Clause(\A p \in DOMAIN r.got : \A b \in DOMAIN r.got[p] : Len(r.got[p][b]) = r.B,
                  "BatchSize")
      \cup Clause(\A p \in DOMAIN r.got : Len(r.got[p]) = Len(r.got[1]), "SameNumberOfBatches")
      \cup Clause(r.filter \in {"none", "none2", "marked"} =>
                    Len(r.got[1]) = Batches(Len(r.members), r.P, r.B), "NumberOfBatches")
      \cup Clause({At(x)[1] : x \in ok} = Range2(r.wanted), "EverySeen")
      \cup Clause(Cardinality(ok) = Cardinality({At(x)[1] : x \in ok}), "SeenOnce")
      \cup Clause(r.count = Len(r.members), "NumExamples")
(* Training: the first m elements of a process come from the first m + b of  *)
(* its share repeated for ever, b being the size of the shuffling buffer.    *)
Train(r) ==
  LET Cnt(p, x) == Cardinality({i \in DOMAIN r.got[p] : r.got[p][i] = x})
      Shares == [p \in DOMAIN r.shares |-> Range2(r.shares[p])]
  IN  Clause(\A p \in DOMAIN r.got : Range2(r.got[p]) \subseteq Shares[p], "OwnShare")
      \cup Clause(UNION {Shares[p] : p \in DOMAIN Shares} = Range2(r.members), "SharesCover")
      \cup Clause(SumOver(DOMAIN Shares, LAMBDA p : Cardinality(Shares[p])) = Len(r.members),
                  "SharesDisjoint")
      \cup Clause(\A p \in DOMAIN r.got : Len(r.got[p]) = r.asked, "ForEver")
      \cup Clause(\A p \in DOMAIN r.got : \A x \in Shares[p] :
                    LET n == Cardinality(Shares[p])  m == Len(r.got[p]) IN
                      /\ Cnt(p, x) <= CeilDiv(m + r.buffer, n)
                      /\ Cnt(p, x) >= (m \div n) - r.buffer,
                  "OncePerEpoch")
      \cup Clause(\A p \in DOMAIN r.got : r.buffer <= 1 =>
                    \A x \in Shares[p] : Cnt(p, x) >= Len(r.got[p]) \div Cardinality(Shares[p]),
                  "OncePerEpochUnshuffled")
      \cup Clause(r.nomask, "NoMask")
FailedClauses(r) ==
  CASE r.op = "eval"   -> Eval(r)
    [] r.op = "train"  -> Train(r)
    [] r.op = "reject" -> Clause(r.rejected = (r.batch % r.P # 0 \/ r.batch % r.devices # 0), "Divides")
    [] OTHER           -> {"Unknown"}
=============================================================================
