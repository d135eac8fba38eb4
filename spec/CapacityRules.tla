---------------------------- MODULE CapacityRules ---------------------------
(* Capacity of an expert: exact definition over rationals.                   *)
(* The factor is num / den.  Multiples <= 0 mean "no multiple requested".    *)
EXTENDS Integers

CeilDiv(a, b) == (a + b - 1) \div b
RoundUp(x, m) == IF m <= 0 THEN x ELSE CeilDiv(x, m) * m

\* The values allowed before rounding up to a multiple (a tie of "round" may
\* go either way).
Base(tokens, experts, num, den, mode) ==
  LET a == tokens * num
      b == experts * den
  IN  IF mode = "ceil" THEN {CeilDiv(a, b)}
      ELSE IF (2 * a) % b = 0 /\ ((2 * a) \div b) % 2 = 1
           THEN {a \div b, (a \div b) + 1}
           ELSE {(2 * a + b) \div (2 * b)}

\* -1 stands for "rejected".
CapacityOf(tokens, experts, num, den, mode, mult) ==
  {IF c < 1 THEN -1 ELSE RoundUp(c, mult) :
     c \in Base(tokens, experts, num, den, mode)}
=============================================================================
