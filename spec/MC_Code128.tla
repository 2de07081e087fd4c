------------------------------ MODULE MC_Code128 -----------------------------
(* Code 128 against a reader: what the data says comes back out of the bars, *)
(* for every sequence of MaxLen pieces.                                      *)
EXTENDS Barcodes
CONSTANTS MaxLen, Exact
VARIABLES mT        \* pieces of data: a character, or a brace and what it marks
vars == <<mT>>
Pieces == { <<123, 65>>, <<123, 66>>, <<123, 67>>, <<123, 83>>, <<123, 49>>, <<123, 52>>, <<123, 123>>,
            <<48>>, <<57>>, <<65>>, <<97>>, <<1>>, <<127>> } \cup (IF Exact THEN {} ELSE {<<32>>, <<31>>, <<95>>, <<96>>, <<123, 50>>, <<123, 51>>})
Init == mT = <<>>
Next == Len(mT) < MaxLen /\ \E p \in Pieces : mT' = Append(mT, p)
MCSpec == Init /\ [][Next]_vars

Symbols == [v \in 0 .. 105 |-> Bars(Digits(Code128Widths[v + 1], 6))]
ValueAt(bits, i) == CHOOSE v \in 0 .. 105 : Symbols[v] = SubSeq(bits, 11 * i + 1, 11 * i + 11)
(* the values between the start and the stop, check symbol included *)
ReadValues(bits) == [i \in 1 .. (Len(bits) - 13) \div 11 |-> ValueAt(bits, i - 1)]

(* A reader: a set, and for one symbol the other set *)
CharIn(cs, v) == IF cs = "A" THEN (IF v < 64 THEN v + 32 ELSE v - 64) ELSE v + 32
Read(vals) ==
    LET step(a, v) ==
          LET cs == IF a.sh THEN (IF a.cs = "A" THEN "B" ELSE "A") ELSE a.cs
              out(x) == [a EXCEPT !.out = @ \o x, !.sh = FALSE]
              to(s) == [a EXCEPT !.cs = s]
          IN CASE cs = "C" -> (IF v < 100 THEN out(<<48 + v \div 10, 48 + (v % 10)>>)
                               ELSE IF v = 100 THEN to("B") ELSE IF v = 101 THEN to("A") ELSE out(<<Fnc1>>))
               [] v < 96 -> out(<<CharIn(cs, v)>>)
               [] v = 96 -> out(<<Fnc3>>) [] v = 97 -> out(<<Fnc2>>)
               [] v = 98 -> [a EXCEPT !.sh = TRUE]
               [] v = 99 -> to("C")
               [] v = 100 -> (IF cs = "A" THEN to("B") ELSE out(<<Fnc4>>))
               [] v = 101 -> (IF cs = "B" THEN to("A") ELSE out(<<Fnc4>>))
               [] v = 102 -> out(<<Fnc1>>)
    IN FoldLeft(step, [cs |-> <<"A", "B", "C">>[vals[1] - 102], sh |-> FALSE, out |-> <<>>], SubSeq(vals, 2, Len(vals) - 1))

(* what was meant: the pieces that are not about sets *)
Meant(p) == CASE Len(p) = 1 -> p
              [] p[2] = 123 -> <<123>>
              [] p[2] = 49 -> <<Fnc1>> [] p[2] = 50 -> <<Fnc2>> [] p[2] = 51 -> <<Fnc3>> [] p[2] = 52 -> <<Fnc4>>
              [] OTHER -> <<>>
Data == JoinAll(mT)
AllMeant == JoinAll([i \in DOMAIN mT |-> Meant(mT[i])])
Made == Code128(Data)

ReadsBack == Len(Data) >= 2 /\ Made.ok =>
    LET v == ReadValues(Made.bits)  n == Len(v)  r == Read(v)
    IN /\ v[1] \in 103 .. 105
       /\ v[n] = (v[1] + SumSeq([i \in 1 .. n - 2 |-> i * v[i + 1]])) % 103
       /\ r.out = AllMeant /\ ~r.sh
       /\ SubSeq(Made.bits, Len(Made.bits) - 12, Len(Made.bits)) = Bars(Digits(Code128Stop, 6)) \o <<1, 1>>
ShownIsMeant ==       \* the text next to the bars
    Code128Text(Data) = SelectSeq(AllMeant, LAMBDA x : x < 128)
(* what cannot be refused: sets chosen first, and characters of the set *)
InSet(cs, p) == CASE Len(p) = 2 /\ p[2] \in {49, 50, 51, 52} -> cs \in {65, 66}
                  [] Len(p) = 2 /\ p[2] = 123 -> cs = 66
                  [] Len(p) = 2 -> FALSE
                  [] cs = 65 -> p[1] \in 0 .. 95
                  [] cs = 66 -> p[1] \in 32 .. 127
                  [] OTHER -> FALSE
Plain == mT # <<>> /\ mT[1] \in {<<123, 65>>, <<123, 66>>}
         /\ \A i \in 2 .. Len(mT) :
              \/ InSet(mT[1][2], mT[i])
              \/ mT[i] = <<123, 83>> /\ i < Len(mT) /\ Len(mT[i + 1]) = 1 /\ InSet(131 - mT[1][2], mT[i + 1])
              \/ mT[i - 1] = <<123, 83>> /\ i > 2 /\ InSet(131 - mT[1][2], mT[i])
NotRefused == Plain /\ Len(Data) >= 2 => Made.ok
==============================================================================
