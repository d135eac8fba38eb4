------------------------------ MODULE SerdeGen ------------------------------
EXTENDS GenLib
Arrays == {"float32", "bfloat16", "int8", "bool", "float64", "complex64", "uint16",
           "empty", "empty2", "scalar0", "fortran", "strided", "jax", "jaxbf16",
           "big", "npscalar", "npbf16", "npbool"}
Others == {"int", "negint", "bigint", "float", "nan", "inf", "str", "unicode", "bytes",
           "true", "none", "complex", "shaped", "weak", "slice", "slicenone",
           "slicend", "slicend0", "slicendarray", "slicendarrayT", "indexinfo", "emptydict", "emptystr"}
Shapes == {"leaf", "dict", "list", "tuple", "named", "struct", "mixed", "frozen"}
Write == WriteCases(
  [shape : Shapes, a : Arrays, b : Arrays \cup Others, limit : {0, 1, 8, 20, 64}])
=============================================================================
