----------------------------- MODULE PreprocGen -----------------------------
(* Programs: operations with the way they name their keys, and expressions   *)
(* of calls: what is called with what kind of arguments.                     *)
EXTENDS GenLib
CONSTANTS MaxOps
Ops == {"central_crop", "resize", "resize_small", "flip_lr", "inception_crop", "reshape", "value_range", "onehot", "decode",
        "copy", "keep", "ignore_no_labels", "flatten"}
Keys == {"default", "key", "inout"}
Step == Ops \X Keys
Programs == UNION {[1 .. n -> Step] : n \in 1 .. MaxOps}
Callees == {"name", "dotted", "deep", "missing", "nomodule", "callmid", "called", "subscript", "submid", "lambda", "number", "string",
            "sum", "ternary", "walrus", "empty", "statement", "two", "open", "tuple"}
Args == {"int", "negint", "float", "str", "none", "true", "tuple", "list", "dict", "set", "nested",
         "name", "attr", "call", "fstr", "lambda", "comp", "sum", "subscript", "star", "deepcall", "deepname", "keycall"}
Calls == [callee : Callees, args : {"bare", "none"}, kw : {"none"}] \cup
         [callee : {"name", "dotted", "deep"}, args : Args, kw : {"none"} \cup Args]
Write == WriteCases({[kind |-> "prog", steps |-> p] : p \in Programs} \cup {[kind |-> "call", c |-> c] : c \in Calls})
=============================================================================
