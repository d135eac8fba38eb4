------------------------------- MODULE Serde -------------------------------
(* Encoding of a tree: containers become maps, leaves are written one after  *)
(* the other, and an array with more bytes than the limit is cut in          *)
(* consecutive pieces which the decoder joins.                               *)
EXTENDS Integers, Sequences, TLC
CONSTANTS MaxItems, MaxItemBytes, MaxLimit
VARIABLES items, isize, limit, pos, pieces, out, phase
vars == <<items, isize, limit, pos, pieces, out, phase>>
PerPiece == IF limit \div isize < 1 THEN 1 ELSE limit \div isize
Init == /\ items \in 0..MaxItems /\ isize \in 1..MaxItemBytes
        /\ limit \in 1..MaxLimit /\ pos = 0
        /\ pieces = <<>> /\ out = <<>> /\ phase = "cut"
Content(a, b) == [i \in 1..(b - a) |-> a + i]
Cut == /\ phase = "cut"
       /\ \/ pos < items \/ (items = 0 /\ pieces = <<>>)
       /\ LET e == IF pos + PerPiece > items THEN items ELSE pos + PerPiece IN
            pieces' = Append(pieces, Content(pos, e)) /\ pos' = e
       /\ UNCHANGED <<items, isize, limit, out, phase>>
Switch == /\ phase = "cut" /\ pos = items /\ pieces /= <<>>
          /\ phase' = "join" /\ UNCHANGED <<items, isize, limit, pos, pieces, out>>
Join == /\ phase = "join" /\ pieces /= <<>>
        /\ out' = out \o Head(pieces) /\ pieces' = Tail(pieces)
        /\ UNCHANGED <<items, isize, limit, pos, phase>>
Next == Cut \/ Switch \/ Join
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
PieceBound == \A i \in DOMAIN pieces :
  Len(pieces[i]) <= 1 \/ Len(pieces[i]) * isize <= limit
RoundTrip == (phase = "join" /\ pieces = <<>>) => out = Content(0, items)
Ends == <>(phase = "join" /\ pieces = <<>>)
=============================================================================
