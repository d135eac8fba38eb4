------------------------------ MODULE Capacity ------------------------------
(* Laws of the capacity definition, over a grid: the machine grows tokens,   *)
(* factor or experts one unit at a time, and the laws are action properties. *)
EXTENDS CapacityRules
CONSTANTS MaxTokens, MaxExperts, MaxNum, Den, Modes, Mults
VARIABLES tok, exp, num, mode, mult
vars == <<tok, exp, num, mode, mult>>
Init == tok = 1 /\ exp = 1 /\ num = 1 /\ mode \in Modes /\ mult \in Mults
Next == /\ UNCHANGED <<mode, mult>>
        /\ \/ tok < MaxTokens /\ tok' = tok + 1 /\ UNCHANGED <<exp, num>>
           \/ exp < MaxExperts /\ exp' = exp + 1 /\ UNCHANGED <<tok, num>>
           \/ num < MaxNum /\ num' = num + 1 /\ UNCHANGED <<tok, exp>>
Spec == Init /\ [][Next]_vars
Cap == CapacityOf(tok, exp, num, Den, mode, mult)
Lo(S) == CHOOSE x \in S : \A y \in S : x <= y
Hi(S) == CHOOSE x \in S : \A y \in S : x >= y
\* Enough room for the requested share of tokens when rounding up.
Enough == mode = "ceil" => \A c \in Cap : c * exp * Den >= tok * num
\* Never more than one unit (before the multiple) too much.
Tight == \A c \in Cap : c > 0 =>
            (c - (IF mult > 0 THEN mult ELSE 1)) * exp * Den < tok * num
Multiple == \A c \in Cap : c > 0 /\ mult > 0 => c % mult = 0
Positive == mode = "ceil" => \A c \in Cap : c >= 1
ExactFit == ((tok * num) % (exp * Den) = 0 /\ mult <= 1) =>
               Cap = {(tok * num) \div (exp * Den)}
Monotone == [][ (exp' = exp) => Hi(Cap') >= Lo(Cap) ]_vars
=============================================================================
