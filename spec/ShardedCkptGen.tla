--------------------------- MODULE ShardedCkptGen ---------------------------
(* Pairs of layouts (mesh, partition spec of a matrix, device order).        *)
EXTENDS GenLib
(* Meshes of all the devices, and of six of them: the parts of a layout over *)
(* six devices overlap those of a layout over eight without nesting.         *)
Meshes == {<<8, 1>>, <<4, 2>>, <<2, 4>>, <<1, 8>>, <<6, 1>>, <<3, 2>>, <<2, 3>>}
Specs == {<<"", "">>, <<"x", "">>, <<"", "x">>, <<"y", "">>, <<"", "y">>,
          <<"x", "y">>, <<"y", "x">>, <<"xy", "">>, <<"", "xy">>, <<"yx", "">>}
Layouts == {<<m, s, o>> : m \in Meshes, s \in Specs,
                          o \in {"plain", "reversed", "interleaved"}}
Cases == {<<a, b>> : a \in Layouts, b \in Layouts}
Write == WriteCases(Cases)
=============================================================================
