------------------------------ MODULE MapRules -------------------------------
(* Names are sequences of characters.  Rules find names by                   *)
(*   wrap: begins with u, ends with v; these become x and y                  *)
(*   word: contains u; all its occurrences become x                          *)
(*   num:  begins with u and a number; these become x                        *)
EXTENDS Integers, Sequences, FiniteSets
Digits == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9">>
Letters == <<"/", "S", "_", "a", "b", "c", "d", "k", "n", "p", "q", "t", "w", "x", "y", "z">>
IsDigit(c) == \E i \in DOMAIN Digits : Digits[i] = c
ValueOf(c) == (CHOOSE i \in DOMAIN Digits : Digits[i] = c) - 1
Rank(c) == CHOOSE i \in DOMAIN Letters : Letters[i] = c
Starts(t, i, w) == i + Len(w) - 1 <= Len(t) /\ \A k \in DOMAIN w : t[i + k - 1] = w[k]
Matches(p, t) ==
  CASE p.k = "wrap" -> Len(t) >= Len(p.u) + Len(p.v) /\ Starts(t, 1, p.u) /\ Starts(t, Len(t) - Len(p.v) + 1, p.v)
    [] p.k = "word" -> \E i \in 1 .. Len(t) : Starts(t, i, p.u)
    [] p.k = "num"  -> Starts(t, 1, p.u) /\ Len(t) > Len(p.u) /\ IsDigit(t[Len(p.u) + 1])
RECURSIVE ReplaceAll(_, _, _, _)
ReplaceAll(t, i, u, x) ==
  IF i > Len(t) THEN <<>>
  ELSE IF Starts(t, i, u) THEN x \o ReplaceAll(t, i + Len(u), u, x)
  ELSE <<t[i]>> \o ReplaceAll(t, i + 1, u, x)
RECURSIVE SkipDigits(_, _)
SkipDigits(t, i) == IF i <= Len(t) /\ IsDigit(t[i]) THEN SkipDigits(t, i + 1) ELSE i
Rename(p, t) ==
  CASE p.k = "wrap" -> p.x \o SubSeq(t, Len(p.u) + 1, Len(t) - Len(p.v)) \o p.y
    [] p.k = "word" -> ReplaceAll(t, 1, p.u, p.x)
    [] p.k = "num"  -> p.x \o SubSeq(t, SkipDigits(t, Len(p.u) + 1), Len(t))
First(rules, t) ==
  IF \E i \in DOMAIN rules : Matches(rules[i].p, t)
  THEN CHOOSE i \in DOMAIN rules : Matches(rules[i].p, t) /\ \A j \in 1 .. (i - 1) : ~ Matches(rules[j].p, t)
  ELSE 0
(* Natural order: numbers in names count as numbers.                         *)
RECURSIVE NumberAt(_, _, _)
NumberAt(t, i, n) == IF i <= Len(t) /\ IsDigit(t[i]) THEN NumberAt(t, i + 1, n * 10 + ValueOf(t[i])) ELSE n
RECURSIVE Before(_, _, _, _)
Before(s, i, t, j) ==
  IF j > Len(t) THEN FALSE
  ELSE IF i > Len(s) THEN TRUE
  ELSE IF IsDigit(s[i]) # IsDigit(t[j]) THEN IsDigit(s[i])   \* the text before ends here
  ELSE IF IsDigit(s[i])
       THEN LET a == NumberAt(s, i, 0)  b == NumberAt(t, j, 0)
            IN  IF a # b THEN a < b ELSE Before(s, SkipDigits(s, i), t, SkipDigits(t, j))
  ELSE IF s[i] # t[j] THEN Rank(s[i]) < Rank(t[j])
  ELSE Before(s, i + 1, t, j + 1)
=============================================================================
