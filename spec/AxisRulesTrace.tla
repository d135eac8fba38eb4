--------------------------- MODULE AxisRulesTrace ---------------------------
EXTENDS TraceLib, Regex
(* One parameter of a tree: the rules are [p: pattern, spec: sequence].      *)
Leaf(r) ==
  LET i == FirstFound([k \in DOMAIN r.rules |-> r.rules[k].p], r.path)
      w == IF i = 0 \/ r.size <= 1 THEN <<>> ELSE r.rules[i].spec
  IN  Clause(r.spec = w, "FirstMatchingRule")
Tree(r) == Clause(r.struct, "Structure") \cup Clause(r.kept, "InputModified")
Parse(r) == Clause(r.spec = r.want, "Parsed")
FailedClauses(r) ==
  CASE r.op = "leaf"  -> Leaf(r)
    [] r.op = "tree"  -> Tree(r)
    [] r.op = "order" -> Clause(r.same, "OrderOfParameters")
    [] r.op = "parse" -> Parse(r)
    [] OTHER          -> {"Unknown"}
=============================================================================
