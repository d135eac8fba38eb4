------------------------------ MODULE AttackGen ------------------------------
EXTENDS GenLib
Cases ==
  [op : {"pgd"}, updates : {1, 2, 3, 4, 8}, shift : 0 .. 3, rngs : {"none", "one", "two"}, aux : BOOLEAN, labels : 1 .. 3]
  \cup [op : {"train"}, updates : {0, 1, 2, 4}, shift : 0 .. 3, rngs : {"one", "two"}, aux : BOOLEAN, labels : {2}, off : BOOLEAN]
  \cup [op : {"count"}, batches : 1 .. 4, size : {1, 2, 5}, routers : 0 .. 2, valid : {"all", "some", "none", "absent"}]
  \cup [op : {"weights"}, items : {3, 4, 6}, experts : {2, 3, 4}, chosen : {1, 2, 3}, capacity : {1, 2, 4}, bpr : BOOLEAN, groups : {1, 2}]
  \cup [op : {"run"}, router : {"einsum", "indices", "items", "none"}, aux : BOOLEAN, loss : {"softmax_xent", "sigmoid_xent"},
        store : {1, 2, 3}, updates : {1, 2, 4}, bf16 : BOOLEAN]
Write == WriteCases(Cases)
=============================================================================
