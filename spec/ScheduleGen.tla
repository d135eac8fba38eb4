---------------------------- MODULE ScheduleGen ------------------------------
EXTENDS GenLib
CONSTANTS MaxW, MaxD
Cases ==
  [kind : {"warmup_linear_decay", "warmup_cosine_decay"}, W : 0 .. MaxW, D : 1 .. MaxD,
   peak : {1, 4}, end : {0, 1}, arg : {0}, cool : {0}]                            \* values in halves
  \cup [kind : {"warmup_polynomial_decay"}, W : 0 .. MaxW, D : 1 .. MaxD,
        peak : {1, 4}, end : {0, 1}, arg : {1, 2, 4}, cool : {0}]                 \* power, in halves
  \cup [kind : {"big_vision_rsqrt"}, W : 0 .. MaxW, D : 0 .. MaxD, peak : {1, 4}, end : {0},
        arg : {1, 3, 10}, cool : 0 .. 4]                                          \* timescale
  \cup [kind : {"warmup_exponential_decay"}, W : 0 .. MaxW, D : 1 .. 4, peak : {1, 4}, end : {0},
        arg : {1, 2, 3}, cool : {0}]                                              \* rate, in quarters
  \cup [kind : {"constant"}, W : {0}, D : {1}, peak : {1, 4}, end : {0}, arg : {0}, cool : {0}]
Write == WriteCases(Cases)
=============================================================================
