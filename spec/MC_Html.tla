------------------------------- MODULE MC_Html -------------------------------
(***************************************************************************)
(* Rows written one below the other, each as far below (or above) the end  *)
(* of the one before as it should be, are read where they should be, in    *)
(* whatever order their places are, rows without height included as long   *)
(* as they keep the distances around them apart.                           *)
(***************************************************************************)
EXTENDS Html, FiniteSets
CONSTANTS MaxRows, MaxY, MaxH, Apart

VARIABLES wrote, last, places
mcVars == <<wrote, last, places>>
Written(y, h) == [h |-> h, m |-> y - last, apart |-> Apart,
                  items |-> <<[t |-> "text", left |-> 0, top |-> 0, text |-> <<97>>]>>]
Init == wrote = <<>> /\ last = 0 /\ places = <<>>
Next == /\ Len(wrote) < MaxRows
        /\ \E y \in 0 .. MaxY, h \in 0 .. MaxH :
             /\ wrote' = Append(wrote, Written(y, h)) /\ last' = y + h /\ places' = Append(places, y)
Spec == Init /\ [][Next]_mcVars
Read == Placed(wrote)
ReadWhereWritten == [k \in DOMAIN Read.shown |-> Read.shown[k].y] = places
EndsWhereWritten == Read.y = last
TypeOK == Len(wrote) = Len(places) /\ last \in 0 .. MaxY + MaxH
==============================================================================
