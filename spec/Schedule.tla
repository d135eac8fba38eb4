------------------------------ MODULE Schedule -------------------------------
(* A rate that warms up, decays, cools down and stays; values are rationals  *)
(* over the common denominator Den.  The decay is any non-increasing one     *)
(* between the peak and the value before the end.                            *)
EXTENDS Integers
CONSTANTS MaxWarm, MaxDecay, MaxCool, MaxPeak
VARIABLES warm, decay, cool, peak, end,     \* lengths and values
          t, rate, phase
vars == <<warm, decay, cool, peak, end, t, rate, phase>>
cfg == <<warm, decay, cool, peak, end>>
RECURSIVE Fact(_)
Fact(n) == IF n = 0 THEN 1 ELSE n * Fact(n - 1)
Den == Fact(IF MaxWarm > MaxCool THEN MaxWarm ELSE MaxCool)
Init == /\ warm \in 0 .. MaxWarm /\ decay \in 1 .. MaxDecay /\ cool \in 0 .. MaxCool
        /\ peak \in {Den * p : p \in 1 .. MaxPeak} /\ end \in {Den * p : p \in 0 .. MaxPeak} /\ end <= peak
        /\ (cool > 0 => end = 0)
        /\ t = 0 /\ rate = (IF warm > 0 THEN 0 ELSE peak)
        /\ phase = (IF warm > 0 THEN "warm" ELSE "decay")
PhaseAt(s) == IF s < warm THEN "warm" ELSE IF s < warm + decay THEN "decay"
              ELSE IF s < warm + decay + cool THEN "cool" ELSE "end"
VARIABLE top     \* the rate when cooling began
Tick ==
  /\ t < warm + decay + cool + 2
  /\ t' = t + 1 /\ phase' = PhaseAt(t + 1)
  /\ CASE phase' = "warm"  -> rate' = (peak \div warm) * (t + 1) /\ top' = top
       [] phase' = "decay" -> /\ rate' \in (IF phase = "warm" THEN {peak} ELSE end .. rate)
                              /\ top' = top
       [] phase' = "cool"  -> IF phase = "cool"
                              THEN rate' = (top \div cool) * (warm + decay + cool - (t + 1)) /\ top' = top
                              ELSE rate' \in {Den * x : x \in 0 .. (rate \div Den)} /\ top' = rate'
       [] phase' = "end"   -> rate' = end /\ top' = top
  /\ UNCHANGED cfg
Spec == Init /\ top = 0 /\ [][Tick]_<<vars, top>>
NonNegative == rate >= 0 /\ rate <= peak
Ends == phase = "end" => rate = end
PeakReached == t = warm => rate = peak
Shape == [][IF phase' = "warm" THEN rate' >= rate ELSE IF phase = "warm" THEN rate' = peak ELSE rate' <= rate]_<<vars, top>>
=============================================================================
