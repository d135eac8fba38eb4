---------------------------- MODULE PreprocTrace -----------------------------
EXTENDS TraceLib, PreRules
Data(es) == [p \in {es[i].p : i \in DOMAIN es} |->
              LET e == es[CHOOSE i \in DOMAIN es : es[i].p = p] IN [t |-> e.t, s |-> e.s, v |-> e.v]]
Tol == 15
Same(a, b) == /\ a.t = b.t /\ a.s = b.s /\ Len(a.v) = Len(b.v)
              /\ \A k \in DOMAIN a.v : AbsV(a.v[k] - b.v[k]) <= (IF a.t = "float32" THEN Tol ELSE 0)
Agrees(d, e) == DOMAIN d = DOMAIN e /\ \A p \in DOMAIN d : Same(d[p], e[p])

(* Literals as Python writes them: values described by [t, v, xs].           *)
Literals == {"int", "float", "str", "none", "bool", "tuple", "list", "dict", "set"}
RECURSIVE Literal(_)
Literal(x) == x.t \in Literals /\ \A k \in DOMAIN x.xs : Literal(x.xs[k])
RECURSIVE Equal(_, _)
Equal(x, y) == x.t = y.t /\ x.v = y.v /\ Len(x.xs) = Len(y.xs) /\ \A k \in DOMAIN x.xs : Equal(x.xs[k], y.xs[k])
Good == {"name", "dotted", "deep"}

FailedClauses(r) ==
  CASE r.op = "run" ->
    (* Datasets do not compute what nobody uses.                             *)
    LET D == Run(r.prog, {Data(r.data)}) IN
    Clause(IF r.rejected THEN MayFail(r.prog, {Data(r.data)}) ELSE D # {} \/ r.mode # "eager", "Rejects") \cup
    (IF r.rejected \/ D = {} THEN {} ELSE
      Clause(\E d \in D : DOMAIN d = DOMAIN Data(r.got), "Keys") \cup
      Clause(\E d \in D : Agrees(d, Data(r.got)), "Result"))
  [] r.op = "dict" -> Clause(r.rejected, "OnlyDicts")
  [] r.op = "unknown" -> Clause(r.rejected /\ r.ran = 0, "Unknown")
  [] r.op = "call" ->
    LET ok == r.callee \in Good /\ (\A k \in DOMAIN r.args : Literal(r.args[k])) /\ (\A k \in DOMAIN r.kw : Literal(r.kw[k].v)) IN
    Clause(r.ran = 0, "NothingRuns") \cup
    Clause(r.rejected <=> ~ ok, "Accepts") \cup
    (IF r.rejected \/ ~ ok THEN {} ELSE
      Clause(r.found = r.want, "Callable") \cup
      Clause(Len(r.args) = Len(r.gotargs) /\ \A k \in DOMAIN r.args : Equal(r.args[k], r.gotargs[k]), "Args") \cup
      Clause(Len(r.kw) = Len(r.gotkw) /\ \A k \in DOMAIN r.kw : \E j \in DOMAIN r.gotkw :
               r.gotkw[j].k = r.kw[k].k /\ Equal(r.kw[k].v, r.gotkw[j].v), "Kwargs"))
  [] r.op = "flips" -> Clause(r.same + r.flipped = r.n /\ 3 * r.same > r.n /\ 3 * r.flipped > r.n, "Random")
  [] r.op = "crops" -> Clause(r.windows >= 5, "Random") \cup Clause(r.bad = 0, "Area")
  [] r.op = "jpeg" ->
    Clause(IF r.h > 0 THEN r.got = <<r.h, r.w, 3>>
           ELSE /\ Len(r.got) = 3 /\ r.got[3] = 3 /\ r.got[1] <= r.H /\ r.got[2] <= r.W
                /\ 100 * (r.got[1] + 1) * (r.got[2] + 1) >= r.amin * r.H * r.W
                /\ (r.got[1] * r.got[2] = r.H * r.W \/ 100 * (r.got[1] - 1) * (r.got[2] - 1) <= r.amax * r.H * r.W), "JpegShape") \cup
    Clause(r.worst <= 3 /\ r.t = "uint8", "JpegPixels")
  [] r.op = "absent" -> Clause(r.rejected, "Absent")
  [] OTHER -> {"Unknown"}
=============================================================================
