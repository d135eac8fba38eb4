---------------------------- MODULE InitStateGen -----------------------------
EXTENDS GenLib
Cases ==
  [call : {"start"},
   disk : {{}, {0}, {2}, {2, 5}, {5, 10}, {3, 7, 11}}, torn : {"none", "later", "unnamed"},
   cfg : {"none", "all", "some", "up", "vit", "strict", "unknown"},
   opt : {"sgd", "momentum", "adam"}, rules : 0 .. 5, mesh : 1 .. 4]
  \cup
  [call : {"reuse"}, disk : {{}}, torn : {"none"}, cfg : {"none"},
   opt : {"sgd", "momentum", "adam"}, rules : 0 .. 5, mesh : 1 .. 4]
Write == WriteCases({[c EXCEPT !.disk = SetToSeq(c.disk)] : c \in Cases})
=============================================================================
