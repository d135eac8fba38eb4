------------------------------- MODULE Preproc -------------------------------
(* A preprocessing expression is read from left to right; each operation is  *)
(* resolved to the one of that name, or the expression is rejected as a      *)
(* whole before any example is seen; then examples are processed.            *)
EXTENDS PreRules, TLC
CONSTANTS MaxLen
VARIABLES text,     \* operations as spelled
          fns,      \* operations as resolved
          data,     \* the example
          pc,       \* operations done
          state     \* "read", "run", "rejected", "failed", "done"
vars == <<text, fns, data, pc, state>>
A(t, s, v) == [t |-> t, s |-> s, v |-> v]
Example == (<<"image">> :> A("uint8", <<2, 2, 1>>, <<0, 10000, 20000, 30000>>)) @@
           (<<"labels">> :> A("int32", <<1>>, <<10000>>)) @@
           (<<"x", "y">> :> A("int32", <<>>, <<50000>>))
Base == [op |-> "", i |-> "image", o |-> "image", h |-> 1, w |-> 1, method |-> "bilinear", amin |-> 5, amax |-> 100,
         shape |-> <<4>>, lo |-> 0, hi |-> 1, imin |-> <<0>>, imax |-> <<4>>, clip |-> FALSE, depth |-> 2,
         multi |-> TRUE, on |-> 1, off |-> 0, channels |-> 3, keys |-> <<"image">>]
Op(n) == [Base EXCEPT !.op = n]
Spelled == {Op("central_crop"), [Op("resize") EXCEPT !.h = 4, !.w = 1], [Op("resize_small") EXCEPT !.h = 1],
            Op("flip_lr"), Op("inception_crop"), Op("reshape"), [Op("value_range") EXCEPT !.o = "z"],
            [Op("onehot") EXCEPT !.i = "labels", !.o = "labels"], [Op("copy") EXCEPT !.o = "z"], [Op("copy") EXCEPT !.i = "x", !.o = "image"],
            Op("keep"), [Op("ignore_no_labels") EXCEPT !.i = "labels", !.o = "__valid__"], Op("flatten"), Op("unknown")}
Init == /\ text \in UNION {[1 .. n -> Spelled] : n \in 1 .. MaxLen}
        /\ fns = <<>> /\ data = Example /\ pc = 0 /\ state = "read"
Read == /\ state = "read"
        /\ LET o == text[Len(fns) + 1] IN
             IF o.op = "unknown" THEN state' = "rejected" /\ UNCHANGED fns
             ELSE /\ fns' = Append(fns, o)
                  /\ state' = IF Len(fns) + 1 = Len(text) THEN "run" ELSE "read"
        /\ UNCHANGED <<text, data, pc>>
Step == /\ state = "run" /\ pc < Len(fns)
        /\ IF Do(fns[pc + 1], data) = {} THEN state' = "failed" /\ UNCHANGED <<data, pc>>
           ELSE /\ data' \in Do(fns[pc + 1], data)
                /\ pc' = pc + 1
                /\ state' = IF pc + 1 = Len(fns) THEN "done" ELSE "run"
        /\ UNCHANGED <<text, fns>>
Next == Read \/ Step
Spec == Init /\ [][Next]_vars

AllOrNothing == state = "rejected" => pc = 0 /\ data = Example
Resolved == \A k \in DOMAIN fns : fns[k] = text[k]
Finished == state = "done" => data \in Run(text, {Example})
Failed == state = "failed" => MayFail(text, {Example})
WellFormed == \A p \in DOMAIN data : RProd(data[p].s) = Len(data[p].v)
(* Only the key that is named changes.                                       *)
Frame == [][pc' # pc => LET o == fns[pc'] IN
             o.op \in Singles \cup {"copy", "ignore_no_labels"} =>
               \A p \in DOMAIN data \cup DOMAIN data' : p[1] # o.o => p \in DOMAIN data /\ p \in DOMAIN data' /\ data'[p] = data[p]]_vars
Kept == [][pc' # pc /\ fns[pc'].op = "keep" => \A p \in DOMAIN data' : p \in DOMAIN data /\ data'[p] = data[p]]_vars
=============================================================================
