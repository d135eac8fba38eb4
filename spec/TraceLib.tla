------------------------------ MODULE TraceLib ------------------------------
(* Skeleton of every total trace judge: the trace is read once, each step    *)
(* consumes one line and records the clauses that line violates, and the     *)
(* last step writes the verdict.  A judge extends this module and defines    *)
(* FailedClauses(rec), the set of names of the violated clauses of a record. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt,
        FiniteSetsExt

CONSTANT FailedIn(_)      \* substituted by FailedClauses in the judge's cfg

VARIABLES l,              \* next line of the trace to be consumed
          bad             \* verdict so far: <<[line, clauses]>>

Trace == ndJsonDeserialize(IOEnv.TRACE)

Range2(s) == { s[i] : i \in DOMAIN s }
SumSeq(s) == FoldSeq(LAMBDA x, y : x + y, 0, s)
SumOver(S, f(_)) == FoldSet(LAMBDA x, y : f(x) + y, 0, S)
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
MinOf(S) == CHOOSE x \in S : \A y \in S : y >= x
ProdSeq(s) == FoldSeq(LAMBDA x, y : x * y, 1, s)
AbsV(x) == IF x < 0 THEN -x ELSE x
Has(r, f) == f \in DOMAIN r
Clause(ok, name) == IF ok THEN {} ELSE {name}
WriteVerdict(n, b) == JsonSerialize(IOEnv.VERDICT, [n |-> n, bad |-> b])

TraceInit == l = 1 /\ bad = <<>>
Consume ==
  /\ l <= Len(Trace)
  /\ LET c == FailedIn(Trace[l]) IN
       bad' = IF c = {} THEN bad
              ELSE Append(bad, [line |-> l, clauses |-> SetToSeq(c)])
  /\ l' = l + 1
Finish ==
  /\ l = Len(Trace) + 1
  /\ WriteVerdict(Len(Trace), bad)
  /\ l' = l + 1
  /\ UNCHANGED bad
TraceSpec == TraceInit /\ [][Consume \/ Finish]_<<l, bad>>
=============================================================================
