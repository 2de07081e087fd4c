----------------------------- MODULE ConfLetters -----------------------------
(* What is asked of the letters themselves, whose shapes the specification    *)
(* does not give: a space has no ink and a letter has some, and two letters,  *)
(* or one letter in two styles, are never the same picture.                   *)
EXTENDS Integers, Sequences, Json, IOUtils, TLC
T == ndJsonDeserialize(IOEnv.GLYPHS)
Say(x) == PrintT("@@" \o ToJson(x))
VARIABLE letter
Init == letter \in DOMAIN T
Picture(i) == <<T[i].w, T[i].h, T[i].xs, T[i].ys, T[i].c>>
IsBlank(ch) == ch \in {32, 160}
Fault(i) ==
    LET g == T[i]  ink == \E k \in DOMAIN g.c : g.c[k] > 127
    IN IF IsBlank(g.k[1]) THEN IF \E k \in DOMAIN g.c : g.c[k] # 0 THEN "ink in a blank" ELSE ""
       ELSE IF ~ink THEN "no ink"
       ELSE IF \E j \in 1 .. i - 1 : T[j].k[6] = g.k[6] /\ ~IsBlank(T[j].k[1]) /\ T[j].k[2] = g.k[2]
                                     /\ Picture(j) = Picture(i)
       THEN "two letters look the same" ELSE ""
Next == /\ letter <= Len(T) /\ letter' = letter + Len(T)
        /\ LET f == Fault(letter) IN
           IF f = "" THEN Say([done |-> letter]) ELSE Say([job |-> letter, mismatch |-> <<f>>, want |-> "", got |-> T[letter].k])
Spec == Init /\ [][Next]_letter
==============================================================================
