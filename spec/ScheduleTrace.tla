--------------------------- MODULE ScheduleTrace -----------------------------
(* r.v[t + 1] is the rate at step t, times 10000.  W: length of the warm-up; *)
(* T: the step at which the schedule ends; peak and end in halves.           *)
EXTENDS TraceLib
U == 5000
At(r, t) == r.v[t + 1]
Near(a, b, tol) == AbsV(a - b) <= tol
Steps(r) == 0 .. (Len(r.v) - 1)
Warm(r) == Clause(\A t \in Steps(r) : t < r.W => Near(At(r, t) * r.W, U * r.peak * t, r.W + 1), "WarmUp")
           \cup Clause(Near(At(r, r.W), U * r.peak, 1), "Peak")
Falls(r) == Clause(\A t \in Steps(r) : (t > r.W) => At(r, t) <= At(r, t - 1) + 1, "NonIncreasing")
Stays(r) == Clause(\A t \in Steps(r) : t >= r.T => Near(At(r, t), U * r.end, 1), "EndsAndStays")
General(r) ==
  Clause(\A t \in Steps(r) : At(r, t) \in 0 .. ((U * r.peak) + 1), "InRange")
  \cup Clause(r.same, "FunctionOfStep")
(* The share of the way down, out of n: x of them gone.                      *)
Poly(r, pow2) ==    \* power in halves
  LET n == r.T - r.W  d == U * (r.peak - r.end) IN
  Clause(\A t \in r.W .. r.T : t \in Steps(r) =>
     LET y == At(r, t) - (U * r.end)            \* d ((n - x) / n) ^ power
         z == r.T - t
     IN  CASE pow2 = 2 -> Near(y * n, d * z, n + 1)
           [] pow2 = 4 -> Near(y * n * n, d * z * z, (n * n) + 1)
           [] pow2 = 1 -> Near((y \div 4) * (y \div 4) * n, (d \div 4) * ((d \div 4) * z), 8 * n * (1 + (d \div 8))), "Polynomial")
Cosine(r) ==
  LET n == r.T - r.W  d == U * (r.peak - r.end)
      y(x) == At(r, r.W + x) - (U * r.end)
  IN  Clause(\A x \in 0 .. n : Near(y(x) + y(n - x), d, 2), "CosineSymmetric")
      \cup Clause(n % 2 = 0 => Near(y(n \div 2) * 2, d, 3), "CosineHalf")
      \cup Clause(n % 3 = 0 => Near(y(n \div 3) * 4, 3 * d, 5), "CosineThird")
      \* 0.853553 at a quarter
      \cup Clause(n % 4 = 0 => Near(y(n \div 4) * 1000, 854 * d, 1500 + d), "CosineQuarter")
Rsqrt(r) ==
  LET until == r.T - r.cool           \* cooldown begins
      p == U * r.peak
      Sq(x) == (x \div 10) * (x \div 10)
      Root(t, v) == Near(Sq(v) * (r.arg + t - r.W), Sq(p) * r.arg, (2 * (r.arg + t - r.W) * (1 + (p \div 10))) + r.arg)
  IN  Clause(\A t \in Steps(r) : (t >= r.W /\ (t < until \/ r.cool = 0)) => Root(t, At(r, t)), "InverseRoot")
      \cup Clause(r.cool > 0 => Root(until, At(r, until)), "ContinuousAtCooldown")
      \cup Clause(\A t \in Steps(r) : (r.cool > 0 /\ t >= until /\ t <= r.T)
                    => Near(At(r, t) * r.cool, At(r, until) * (r.T - t), 2 * r.cool), "Cooldown")
Exponential(r) ==
  Clause(\A t \in Steps(r) : (t >= r.W /\ t + r.D \in Steps(r))
           => Near(At(r, t + r.D) * 4, At(r, t) * r.arg, 8), "Exponential")
FailedClauses(r) ==
  CASE r.op = "schedule" ->
         General(r) \cup
         (CASE r.kind = "constant" -> Clause(\A t \in Steps(r) : Near(At(r, t), U * r.peak, 1), "Constant")
            [] r.kind = "warmup_linear_decay" -> Warm(r) \cup Falls(r) \cup Stays(r) \cup Poly(r, 2)
            [] r.kind = "warmup_polynomial_decay" -> Warm(r) \cup Falls(r) \cup Stays(r) \cup Poly(r, r.arg)
            [] r.kind = "warmup_cosine_decay" -> Warm(r) \cup Falls(r) \cup Stays(r) \cup Cosine(r)
            [] r.kind = "warmup_exponential_decay" -> Warm(r) \cup Falls(r) \cup Exponential(r)
            [] r.kind = "big_vision_rsqrt" ->
                 (IF r.W + r.D > 0 /\ (r.D > 0 \/ r.cool = 0) THEN Warm(r) ELSE {})
                 \cup Falls(r) \cup Rsqrt(r) \cup (IF r.cool > 0 THEN Stays(r) ELSE {}))
    [] r.op = "reject" -> Clause(r.rejected = r.bad, "Rejects")
    [] OTHER -> {"Unknown"}
=============================================================================
