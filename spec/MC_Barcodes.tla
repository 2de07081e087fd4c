------------------------------ MODULE MC_Barcodes ----------------------------
(* The symbologies against what a reader of bars can tell: symbols are       *)
(* distinct, check digits balance, what is encoded can be read back.         *)
EXTENDS Barcodes
CONSTANTS Free      \* digits that vary
VARIABLES mD
vars == <<mD>>
(* six digits that vary: all the checks build their data from them *)
Init == mD = <<>>
Next == Len(mD) < 6 /\ \E x \in Free : mD' = Append(mD, x)
MCSpec == Init /\ [][Next]_vars
Whole == Len(mD) = 6

Ascii(ds) == [i \in DOMAIN ds |-> ds[i] + 48]
D12 == <<mD[1], mD[2], 3, 4, mD[3], 6, 7, mD[4], 9, mD[5], 0, mD[6]>>
D7 == <<mD[1], mD[2], mD[3], 9, mD[4], mD[5], mD[6]>>

(* reading: the modules of seven from position p on *)
At(bits, p) == SubSeq(bits, p, p + 6)
LTable == [k \in 0 .. 9 |-> LCode(k)]  GTable == [k \in 0 .. 9 |-> GCode(k)]  RTable == [k \in 0 .. 9 |-> RCode(k)]
ReadL(m) == CHOOSE k \in 0 .. 9 : LTable[k] = m
IsL(m) == \E k \in 0 .. 9 : LTable[k] = m
ReadG(m) == CHOOSE k \in 0 .. 9 : GTable[k] = m
ReadR(m) == CHOOSE k \in 0 .. 9 : RTable[k] = m
ReadEan13(bits) ==
    LET left == [i \in 1 .. 6 |-> At(bits, 4 + 7 * (i - 1))]
        par == FoldLeft(LAMBDA a, i : 10 * a + (IF IsL(left[i]) THEN 0 ELSE 1), 0, [i \in 1 .. 6 |-> i])
        first == CHOOSE k \in 0 .. 9 : Ean13Parity[k + 1] = par
    IN <<first>> \o [i \in 1 .. 6 |-> IF IsL(left[i]) THEN ReadL(left[i]) ELSE ReadG(left[i])]
       \o [i \in 1 .. 6 |-> ReadR(At(bits, 51 + 7 * (i - 1)))]
Weighted(ds) == SumSeq([i \in DOMAIN ds |-> ds[i] * (IF Odd(Len(ds) - i) THEN 3 ELSE 1)])

Ean13Reads == Whole =>
    LET r == Ean13(Ascii(D12)) IN
    /\ r.ok /\ Len(r.bits) = 95
    /\ LET ds == ReadEan13(r.bits) IN Take(ds, 12) = D12 /\ Weighted(ds) % 10 = 0
    /\ Take(r.bits, 3) = Guard /\ SubSeq(r.bits, 46, 50) = Middle /\ SubSeq(r.bits, 93, 95) = Guard
Ean8Reads == Whole =>
    LET r == Ean8(Ascii(D7)) IN
    /\ r.ok /\ Len(r.bits) = 67
    /\ LET ds == [i \in 1 .. 4 |-> ReadL(At(r.bits, 4 + 7 * (i - 1)))] \o [i \in 1 .. 4 |-> ReadR(At(r.bits, 37 + 7 * (i - 1)))]
       IN Take(ds, 7) = D7 /\ Weighted(ds) % 10 = 0
(* with the check digit given: accepted when it is right, refused when wrong *)
Ean8Checked == Whole =>
    \A x \in 0 .. 9 : LET r == Ean8(Ascii(Append(D7, x))) IN
      r.ok <=> Weighted(Append(D7, x)) % 10 = 0
UpcEStands == Whole =>     \* the short form stands for the same number
    LET a == UpcExpand(<<0>> \o mD)  six == UpcCompress(a)
    IN six # <<>> => UpcExpand(<<0>> \o six) = a
UpcEChecked == Whole =>    \* only the right check digit is taken, and it changes nothing
    \A ns \in {0, 1} :
      LET d == <<ns>> \o mD  r == UpcE(Ascii(d))  check == Mod10(UpcExpand(d), 3) IN
      \A x \in 0 .. 9 : LET rx == UpcE(Ascii(Append(d, x))) IN
        IF x = check THEN rx = r ELSE ~rx.ok
UpcAReads == Whole =>      \* an EAN 13 symbol of the number with a zero before it
    LET d == Take(D12, 11)  r == UpcA(Ascii(d)) IN
    /\ r.ok /\ LET ds == ReadEan13(r.bits) IN Take(ds, 12) = <<0>> \o d /\ Weighted(ds) % 10 = 0
    /\ UpcA(Ascii(Append(d, mD[2]))) = r
ItfReads == Whole =>       \* bars carry the digits at odd places, spaces those at even places
    LET r == Itf(Ascii(mD))
        widths == FoldLeft(LAMBDA a, b : IF a # <<>> /\ Last(a)[1] = b THEN Append(Front(a), <<b, Last(a)[2] + 1>>)
                                         ELSE Append(a, <<b, 1>>), <<>>, r.bits)
        el(i) == widths[4 + i][2]
        wide(p, o) == FoldLeft(LAMBDA a, i : 10 * a + (IF el(10 * p + 2 * i - o) = 3 THEN 1 ELSE 0), 0, [i \in 1 .. 5 |-> i])
    IN /\ r.ok /\ Len(widths) = 4 + 30 + 3
       /\ \A p \in 0 .. 2 : wide(p, 1) = ItfWide[mD[2 * p + 1] + 1] /\ wide(p, 0) = ItfWide[mD[2 * p + 2] + 1]
Symbols128 == [v \in 0 .. 105 |-> Bars(Digits(Code128Widths[v + 1], 6))]
Symbols39 == [i \in DOMAIN Code39Chars |-> Bars(Wides(Code39Wide[i]))]
Code128Reads == Whole =>   \* set C: two digits a symbol, the weighted sum modulo 103
    LET r == Code128(<<123, 67>> \o Ascii(mD))
        val(i) == CHOOSE v \in 0 .. 105 : Symbols128[v] = SubSeq(r.bits, 11 * i + 1, 11 * i + 11)
    IN /\ r.ok /\ Len(r.bits) = 11 * 5 + 13
       /\ val(0) = 105
       /\ \A i \in 1 .. 3 : val(i) = 10 * mD[2 * i - 1] + mD[2 * i]
       /\ val(4) = (105 + val(1) + 2 * val(2) + 3 * val(3)) % 103
Code39Reads == Whole =>
    LET r == Code39(Ascii(mD))
    IN /\ r.ok /\ Len(r.bits) = 13 * 8 - 1
       /\ \A k \in 1 .. 6 : \E i \in DOMAIN Symbols39 :
            SubSeq(r.bits, 13 * k + 1, 13 * k + 12) = Symbols39[i] /\ Code39Chars[i] = mD[k] + 48
Distinct(s) == \A i, k \in DOMAIN s : i # k => s[i] # s[k]
DigitsSum(n, k) == SumSeq(Digits(n, k))
ASSUME Patterns ==
    /\ Distinct(EanWidths) /\ Distinct(Code39Wide) /\ Distinct(Code93Widths) /\ Distinct(Code128Widths)
    /\ Distinct(Ean13Parity) /\ Distinct(UpcEParity) /\ Distinct(ItfWide) /\ Distinct(CodabarWidths)
    /\ \A i \in DOMAIN EanWidths : DigitsSum(EanWidths[i], 4) = 7
    /\ \A i \in DOMAIN Code93Widths : DigitsSum(Code93Widths[i], 6) = 9
    /\ \A i \in DOMAIN Code128Widths : DigitsSum(Code128Widths[i], 6) = 11
    /\ \A i \in DOMAIN Code39Wide : DigitsSum(Code39Wide[i], 9) = 3
    /\ \A i \in DOMAIN ItfWide : DigitsSum(ItfWide[i], 5) = 2
    /\ Len(Code39Chars) = 43 /\ Len(Code39Wide) = 43 /\ Len(Code128Widths) = 106 /\ Len(Code93Widths) = 47
    /\ \A i \in DOMAIN UpcEParity : DigitsSum(UpcEParity[i], 6) = 3
==============================================================================
