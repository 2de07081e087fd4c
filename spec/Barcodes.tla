------------------------------- MODULE Barcodes ------------------------------
(***************************************************************************)
(* One dimensional barcodes: what bars the data of GS k makes.             *)
(*                                                                         *)
(* Symbologies are described by the widths of their elements (taken from   *)
(* the symbology standards, not from the code), bars and spaces in turn.   *)
(* A symbol is a sequence of modules: 1 a bar, 0 a space.                  *)
(***************************************************************************)
EXTENDS CodePages, TLC

(* digits of n, most significant first, k of them *)
RECURSIVE Digits(_, _)
Digits(n, k) == IF k = 0 THEN <<>> ELSE Append(Digits(n \div 10, k - 1), (n % 10))

JoinAll(ss) == FoldLeft(LAMBDA a, x : a \o x, <<>>, ss)

(* Elements of these widths, alternating between bars and spaces *)
Run(ws, first) ==
    JoinAll([i \in 1 .. Len(ws) |-> Rep(IF Odd(i) THEN first ELSE 1 - first, ws[i])])
Bars(ws) == Run(ws, 1)
Spaces(ws) == Run(ws, 0)

IsDigit(b) == b \in 48 .. 57
AllDigits(d) == \A i \in DOMAIN d : IsDigit(d[i])
ToDigits(d) == [i \in DOMAIN d |-> d[i] - 48]
SumSeq(s) == FoldLeft(LAMBDA a, x : a + x, 0, s)

(* The modulo 10 check digit: digits are weighted 3 and 1 in turn, the     *)
(* first one with w                                                        *)
Mod10(ds, w) ==
    LET sum == SumSeq([i \in DOMAIN ds |-> ds[i] * (IF Odd(i) THEN w ELSE 4 - w)])
    IN (10 - (sum % 10)) % 10

(* ------------------------------ EAN and UPC ---------------------------- *)
(* widths of space, bar, space, bar of the left odd parity digits *)
EanWidths == <<3211, 2221, 2122, 1411, 1132, 1231, 1114, 1312, 1213, 3112>>
Rev(s) == [i \in 1 .. Len(s) |-> s[Len(s) + 1 - i]]
LCode(d) == Spaces(Digits(EanWidths[d + 1], 4))
RCode(d) == Bars(Digits(EanWidths[d + 1], 4))
GCode(d) == Spaces(Rev(Digits(EanWidths[d + 1], 4)))
Guard == <<1, 0, 1>>
Middle == <<0, 1, 0, 1, 0>>
(* which of the six left digits have even parity, by the leading digit *)
Ean13Parity == <<0, 1011, 1101, 1110, 10011, 11001, 11100, 10101, 10110, 11010>>

Ean13Bits(ds) ==   \* twelve digits
    LET par == Digits(Ean13Parity[ds[1] + 1], 6)
        all == Append(ds, Mod10(ds, 1))
    IN Guard \o JoinAll([i \in 1 .. 6 |-> IF par[i] = 0 THEN LCode(all[i + 1]) ELSE GCode(all[i + 1])])
       \o Middle \o JoinAll([i \in 1 .. 6 |-> RCode(all[i + 7])]) \o Guard
Ean8Bits(ds) ==    \* seven digits
    LET all == Append(ds, Mod10(ds, 3))
    IN Guard \o JoinAll([i \in 1 .. 4 |-> LCode(all[i])])
       \o Middle \o JoinAll([i \in 1 .. 4 |-> RCode(all[i + 4])]) \o Guard

Ok(bits) == [ok |-> TRUE, bits |-> bits]
Bad(m) == [ok |-> FALSE, err |-> m]
BadLength == Bad("Barcode data length is invalid")
BadData == Bad("Barcode data is invalid")

(* n digits, or n + 1 of which the last is the check digit *)
EanChecked(d, n, w, bits(_)) ==
    IF Len(d) \notin n .. n + 1 THEN BadLength
    ELSE IF ~AllDigits(d) THEN BadData
    ELSE LET ds == ToDigits(d) IN
         IF Len(d) = n + 1 /\ Last(ds) # Mod10(Take(ds, n), w) THEN Bad("Invalid checksum")
         ELSE Ok(bits(Take(ds, n)))
(* The check digits of EAN 13 and UPC A are always the right ones, whatever *)
(* digit was sent.  A UPC A number is an EAN 13 number that starts with 0.  *)
Ean13(d) == IF AllDigits(d) THEN Ok(Ean13Bits(Take(ToDigits(d), 12))) ELSE BadData
UpcA(d)  == IF AllDigits(d) THEN Ok(Ean13Bits(<<0>> \o Take(ToDigits(d), 11))) ELSE BadData
Ean8(d)  == EanChecked(d, 7, 3, Ean8Bits)

(* UPC-E: six digits that stand for a twelve digit UPC-A number *)
UpcExpand(e) ==   \* number system and six digits
    LET z == <<0, 0, 0, 0>>
    IN IF e[7] <= 2 THEN <<e[1], e[2], e[3], e[7]>> \o z \o <<e[4], e[5], e[6]>>
       ELSE IF e[7] = 3 THEN <<e[1], e[2], e[3], e[4], 0>> \o z \o <<e[5], e[6]>>
       ELSE IF e[7] = 4 THEN <<e[1], e[2], e[3], e[4], e[5], 0>> \o z \o <<e[6]>>
       ELSE <<e[1], e[2], e[3], e[4], e[5], e[6]>> \o z \o <<e[7]>>
(* The six digits for a UPC-A number: those that expand to it, in the order *)
(* of preference of the standard.  <<>> when there are none.                *)
UpcCompress(a) ==
    LET m == SubSeq(a, 2, 6)  p == SubSeq(a, 7, 11)
        cands == << <<m[1], m[2], p[3], p[4], p[5], m[3]>>,
                    <<m[1], m[2], m[3], p[4], p[5], 3>>,
                    <<m[1], m[2], m[3], m[4], p[5], 4>>,
                    <<m[1], m[2], m[3], m[4], m[5], p[5]>> >>
        fits(i) == /\ i = 1 => m[3] <= 2
                   /\ i = 4 => p[5] >= 5
                   /\ UpcExpand(<<a[1]>> \o cands[i]) = Take(a, 11)
    IN IF \E i \in 1 .. 4 : fits(i)
       THEN cands[CHOOSE i \in 1 .. 4 : fits(i) /\ \A j \in 1 .. i - 1 : ~fits(j)]
       ELSE <<>>
(* even parity positions for number system 0, by check digit *)
UpcEParity == <<111000, 110100, 110010, 110001, 101100, 100110, 100011, 101010, 101001, 100101>>
UpcEBits(ns, six, check) ==
    LET par == Digits(UpcEParity[check + 1], 6)
        even(i) == par[i] = 1 - ns
    IN Guard \o JoinAll([i \in 1 .. 6 |-> IF even(i) THEN GCode(six[i]) ELSE LCode(six[i])])
       \o Middle \o <<1>>
UpcEDigitsOnly == Bad("Invalid UPCA: Only digits 1 - 9 are valid.")
UpcESystem == Bad("Invalid UPCA: The number system (first digit) should be 0 or 1.")
UpcEChecksum == Bad("Invalid UPCA: The check digit is not correct.")
UpcETooBig(a) ==   \* which rule a number that has no short form breaks
    Bad("Invalid UPCA: Product code can not be greater than " \o
        (IF a[5] = 0 /\ a[6] = 0 /\ a[4] <= 2 THEN "00999."
         ELSE IF a[5] = 0 /\ a[6] = 0 THEN "00099."
         ELSE IF a[6] = 0 THEN "00009."
         ELSE "00005 and less than 00009."))
UpcE(d) ==
    IF ~AllDigits(d) THEN UpcEDigitsOnly
    ELSE LET ds == ToDigits(d)
             full(e) == LET a == UpcExpand(e) IN Append(a, Mod10(a, 3))
             a == CASE Len(d) = 6 -> full(<<0>> \o ds)
                    [] Len(d) = 7 -> full(ds)
                    [] Len(d) = 8 -> Append(UpcExpand(ds), ds[8])
                    [] Len(d) = 11 -> Append(ds, Mod10(ds, 3))
                    [] OTHER -> ds
             six == UpcCompress(a)
         IN IF a[12] # Mod10(Take(a, 11), 3) THEN UpcEChecksum
            ELSE IF a[1] > 1 THEN UpcESystem
            ELSE IF six = <<>> THEN UpcETooBig(a)
            ELSE Ok(UpcEBits(a[1], six, a[12]))

(* -------------------------------- Code 39 ------------------------------ *)
(* nine elements each, 1 wide (two modules), 0 narrow *)
Code39Chars == <<48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 65, 66, 67, 68, 69, 70, 71, 72, 73, 74, 75, 76, 77, 78, 79, 80, 81, 82, 83, 84, 85, 86, 87, 88, 89, 90, 45, 46, 32, 36, 47, 43, 37>>
Code39Wide == <<
    110100, 100100001, 1100001, 101100000, 110001, 100110000, 1110000, 100101, 100100100,
    1100100, 100001001, 1001001, 101001000, 11001, 100011000, 1011000, 1101, 100001100,
    1001100, 11100, 100000011, 1000011, 101000010, 10011, 100010010, 1010010, 111,
    100000110, 1000110, 10110, 110000001, 11000001, 111000000, 10010001, 110010000, 11010000,
    10000101, 110000100, 11000100, 10101000, 10100010, 10001010, 101010>>
Code39Star == 10010100
Wides(n) == [i \in 1 .. 9 |-> Digits(n, 9)[i] + 1]
IndexIn(seq, x) == CHOOSE i \in DOMAIN seq : seq[i] = x
Within(seq, x) == \E i \in DOMAIN seq : seq[i] = x
Without(d, x) == SelectSeq(d, LAMBDA y : y # x)
Code39(d0) ==
    LET d == Without(d0, 42) IN    \* the asterisks are the start and the stop
    IF Len(d) \notin 1 .. 256 THEN BadLength
    ELSE IF \E i \in DOMAIN d : ~Within(Code39Chars, d[i]) THEN BadData
    ELSE LET star == Bars(Wides(Code39Star))
         IN Ok(star \o <<0>> \o
               JoinAll([i \in DOMAIN d |-> Bars(Wides(Code39Wide[IndexIn(Code39Chars, d[i])])) \o <<0>>])
               \o star)

(* -------------------------------- Code 93 ------------------------------ *)
(* The last two of the 47 symbols are both written '[' by the encoder in   *)
(* use and drawn as the first of them (known finding code93-last-symbol).  *)
Code93Chars == <<48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 65, 66, 67, 68, 69, 70, 71, 72, 73, 74, 75, 76, 77, 78, 79, 80, 81, 82, 83, 84, 85, 86, 87, 88, 89, 90, 45, 46, 32, 36, 47, 43, 37, 40, 41, 91>>
Code93Widths == <<
    131112, 111213, 111312, 111411, 121113, 121212, 121311, 111114, 131211, 141111, 211113, 211212,
    211311, 221112, 221211, 231111, 112113, 112212, 112311, 122112, 132111, 111123, 111222, 111321,
    121122, 131121, 212112, 212211, 211122, 211221, 221121, 222111, 112122, 112221, 122121, 123111,
    121131, 311112, 311211, 321111, 112131, 113121, 211131, 121221, 312111, 311121, 122211>>
Code93Start == 111141
Code93Index(b) == IndexIn(Code93Chars, b) - 1
Code93Check(vals, maxw) ==
    LET n == Len(vals)
    IN SumSeq([i \in 1 .. n |-> (((n - i) % maxw) + 1) * vals[i]]) % 47
(* the quirk of the shared character *)
Code93Seen(v) == IF v = 46 THEN 45 ELSE v
Code93(d) ==
    IF Len(d) \notin 1 .. 256 THEN BadLength
    ELSE IF \E i \in DOMAIN d : ~Within(Code93Chars, d[i]) THEN BadData
    ELSE LET vals == [i \in DOMAIN d |-> Code93Index(d[i])]
             c == Code93Seen(Code93Check(vals, 20))
             k == Code93Seen(Code93Check(Append(vals, c), 15))
             sym(v) == Bars(Digits(Code93Widths[v + 1], 6))
             all == vals \o <<c, k>>
             guard == Bars(Digits(Code93Start, 6))
         IN Ok(guard \o JoinAll([i \in DOMAIN all |-> sym(all[i])]) \o guard \o <<1>>)

(* -------------------------------- Codabar ------------------------------ *)
(* seven elements each.  The + of the encoder in use differs from that of   *)
(* the standard, 1121212 (known finding codabar-plus).                      *)
CodabarChars == <<48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 45, 36, 58, 47, 46, 43, 65, 66, 67, 68>>
CodabarWidths == <<
    1111122, 1111221, 1112112, 2211111, 1121121, 2111121, 1211112, 1211211,
    1221111, 2112111, 1112211, 1122111, 2111212, 2121112, 2121211, 112222,
    1122121, 1212112, 1112122, 1112221>>
CodabarPlus == <<1, 1, 2, 2, 2, 2, 2>>
Codabar(d) ==
    IF Len(d) \notin 1 .. 256 THEN BadLength
    ELSE IF \E i \in DOMAIN d : ~Within(CodabarChars, d[i]) THEN BadData
    ELSE LET sym(b) == LET i == IndexIn(CodabarChars, b)
                       IN Bars(IF i = 16 THEN CodabarPlus ELSE Digits(CodabarWidths[i], 7))
         IN Ok(JoinAll([i \in DOMAIN d |-> sym(d[i]) \o (IF i = Len(d) THEN <<>> ELSE <<0>>)]))

(* ---------------------------- Interleaved 2 of 5 ----------------------- *)
ItfWide == <<110, 10001, 1001, 11000, 101, 10100, 1100, 11, 10010, 1010>>
ItfPair(a, b) ==
    LET wa == Digits(ItfWide[a + 1], 5)  wb == Digits(ItfWide[b + 1], 5)
    IN Bars([i \in 1 .. 10 |-> IF Odd(i) THEN 1 + 2 * wa[(i + 1) \div 2] ELSE 1 + 2 * wb[i \div 2]])
Itf(d) ==
    IF Len(d) \notin 1 .. 256 THEN BadLength
    ELSE IF ~AllDigits(d) THEN BadData
    ELSE LET ds == ToDigits(d)
             \* an odd number of digits gets a check digit
             all == IF Odd(Len(ds)) THEN Append(ds, Mod10(ds, 3)) ELSE ds
         IN Ok(<<1, 0, 1, 0>> \o JoinAll([i \in 1 .. Len(all) \div 2 |-> ItfPair(all[2 * i - 1], all[2 * i])])
               \o <<1, 1, 0, 1>>)

(* -------------------------------- Code 128 ----------------------------- *)
Code128Widths == <<
    212222, 222122, 222221, 121223, 121322, 131222, 122213, 122312, 132212, 221213, 221312, 231212,
    112232, 122132, 122231, 113222, 123122, 123221, 223211, 221132, 221231, 213212, 223112, 312131,
    311222, 321122, 321221, 312212, 322112, 322211, 212123, 212321, 232121, 111323, 131123, 131321,
    112313, 132113, 132311, 211313, 231113, 231311, 112133, 112331, 132131, 113123, 113321, 133121,
    313121, 211331, 231131, 213113, 213311, 213131, 311123, 311321, 331121, 312113, 312311, 332111,
    314111, 221411, 431111, 111224, 111422, 121124, 121421, 141122, 141221, 112214, 112412, 122114,
    122411, 142112, 142211, 241211, 221114, 413111, 241112, 134111, 111242, 121142, 121241, 114212,
    124112, 124211, 411212, 421112, 421211, 212141, 214121, 412121, 111143, 111341, 131141, 114113,
    114311, 411113, 411311, 113141, 114131, 311141, 411131, 211412, 211214, 211232>>
Code128Stop == 233111
(* Selectors of a character set and the functions, as scalar values *)
SetA == 192  SetB == 385  SetC == 262
Fnc1 == 377  Fnc2 == 378  Fnc3 == 379  Fnc4 == 380  Shift == 381
(* The value of character x in set cs, -1 when it has none *)
Code128Value(cs, x) ==
    IF x = Fnc1 THEN (IF cs = 0 THEN -1 ELSE 102)
    ELSE CASE cs = SetA -> IF x \in 32 .. 95 THEN x - 32 ELSE IF x \in 0 .. 31 THEN x + 64
                           ELSE IF x = Fnc3 THEN 96 ELSE IF x = Fnc2 THEN 97 ELSE IF x = Shift THEN 98
                           ELSE IF x = SetC THEN 99 ELSE IF x = SetB THEN 100 ELSE IF x = Fnc4 THEN 101 ELSE -1
           [] cs = SetB -> IF x \in 32 .. 126 THEN x - 32
                           ELSE IF x \in {127, 247} THEN 95
                           ELSE IF x = Fnc3 THEN 96 ELSE IF x = Fnc2 THEN 97 ELSE IF x = Shift THEN 98
                           ELSE IF x = SetC THEN 99 ELSE IF x = Fnc4 THEN 100 ELSE IF x = SetA THEN 101 ELSE -1
           [] cs = SetC -> IF x = SetB THEN 100 ELSE IF x = SetA THEN 101 ELSE -1
           [] OTHER -> -1
(* one character after a shift is of the other set, A or B; functions and   *)
(* selectors cannot be shifted                                             *)
Shifted(cs, x) == IF x > 127 THEN -1 ELSE Code128Value(IF cs = SetA THEN SetB ELSE SetA, x)
StartValue(x) == CASE x = SetA -> 103 [] x = SetB -> 104 [] x = SetC -> 105

(* The values of text t from position p on, in set cs; ok is FALSE when     *)
(* something in it cannot be encoded                                        *)
RECURSIVE Code128Values(_, _, _)
Code128Values(t, p, cs) ==
    IF p > Len(t) THEN [ok |-> TRUE, v |-> <<>>]
    ELSE LET x == t[p]
             rest(v, q, s) == LET r == Code128Values(t, q, s) IN [r EXCEPT !.v = <<v>> \o @]
             no == [ok |-> FALSE, v |-> <<>>]
         IN IF cs = 0
            THEN IF x \in {SetA, SetB, SetC} THEN rest(StartValue(x), p + 1, x) ELSE no
            ELSE IF cs = SetC /\ IsDigit(x)
            THEN IF p < Len(t) /\ IsDigit(t[p + 1])
                 THEN rest((x - 48) * 10 + t[p + 1] - 48, p + 2, cs) ELSE no
            ELSE IF x = Shift
            THEN IF cs \in {SetA, SetB} /\ p < Len(t) /\ Shifted(cs, t[p + 1]) # -1
                 THEN LET r == Code128Values(t, p + 2, cs)
                      IN [r EXCEPT !.v = <<98, Shifted(cs, t[p + 1])>> \o @]
                 ELSE no
            ELSE IF Code128Value(cs, x) = -1 THEN no
            ELSE rest(Code128Value(cs, x), p + 1, IF x \in {SetA, SetB, SetC} THEN x ELSE cs)

(* What a brace and the character after it stand for, 0 when nothing else   *)
Code128Mark(x) ==
    CASE x = 65 -> SetA [] x = 66 -> SetB [] x = 67 -> SetC [] x = 49 -> Fnc1 [] x = 50 -> Fnc2
      [] x = 51 -> Fnc3 [] x = 52 -> Fnc4 [] x = 83 -> Shift [] x = 123 -> 123 [] OTHER -> 0
RECURSIVE Code128Tokens(_, _)
Code128Tokens(t, p) ==
    IF p > Len(t) THEN <<>>
    ELSE IF t[p] = 123 /\ p < Len(t) /\ Code128Mark(IF p < Len(t) THEN t[p + 1] ELSE 0) # 0
    THEN <<Code128Mark(t[p + 1])>> \o Code128Tokens(t, p + 2)
    ELSE <<t[p]>> \o Code128Tokens(t, p + 1)
(* what is read next to the bars: the characters *)
Code128Text(t) ==
    SelectSeq(Code128Tokens(t, 1), LAMBDA x : x \notin {SetA, SetB, SetC, Fnc1, Fnc2, Fnc3, Fnc4, Shift})
Code128(t0) ==   \* t0: scalar values
    LET t == Code128Tokens(t0, 1)
        r == Code128Values(t, 1, 0)
        sum == SumSeq([i \in DOMAIN r.v |-> r.v[i] * Max2(1, i - 1)]) % 103
        sym(v) == Bars(Digits(Code128Widths[v + 1], 6))
    IN IF Len(t) = 1 /\ t[1] < 128 THEN BadLength
       ELSE IF ~r.ok THEN BadData
       ELSE Ok(JoinAll([i \in DOMAIN r.v |-> sym(r.v[i])]) \o sym(sum)
               \o Bars(Digits(Code128Stop, 6)) \o <<1, 1>>)

(* --------------------------------- GS k -------------------------------- *)
BarcodeKind(m) ==
    CASE m \in {0, 65} -> "UPC A" [] m \in {1, 66} -> "UPC E" [] m \in {2, 67} -> "EAN 13"
      [] m \in {3, 68} -> "EAN 8" [] m \in {4, 69} -> "CODE 39" [] m \in {5, 70} -> "ITF"
      [] m \in {6, 71} -> "Nw7Codabar" [] m = 72 -> "Code93" [] m = 73 -> "Code128"
      [] m = 80 -> "GS1 128" [] m = 81 -> "GS1 Omni" [] m = 82 -> "GS1 Truncated"
      [] m = 83 -> "GS1 Kimited" [] m = 84 -> "GS1 Expanded" [] m = 85 -> "Code 128 Auto"
      [] OTHER -> "Unknown"
LengthFits(kind, n) ==
    CASE kind = "UPC A" -> n \in {11, 12}
      [] kind = "UPC E" -> n \in {6, 7, 8, 11, 12}
      [] kind = "EAN 13" -> n \in {12, 13}
      [] kind = "EAN 8" -> n \in {7, 8}
      [] kind = "CODE 39" -> n \in 1 .. 255
      [] kind = "ITF" -> n \in 2 .. 255
      [] kind = "Nw7Codabar" -> n \in 3 .. 255
      [] kind \in {"GS1 Kimited", "GS1 Truncated", "GS1 Omni"} -> n = 13
      [] kind \in {"Code128", "GS1 128", "GS1 Expanded"} -> n \in 2 .. 255
      [] OTHER -> n \in 1 .. 255

(* What kind m makes of data d: bits and the text to print with them, or   *)
(* why it cannot be printed                                                *)
MakeBarcode(m, d0) ==
    LET kind == BarcodeKind(m)
        d == IF Utf8Valid(d0) THEN d0 ELSE <<>>     \* data that is no text is no data
        t == Utf8Lossy(d)
        r == IF ~LengthFits(kind, Len(d)) THEN Bad("Invalid data length")
             ELSE CASE kind = "UPC A" -> UpcA(d)
                    [] kind = "UPC E" -> UpcE(d)
                    [] kind = "EAN 13" -> Ean13(d)
                    [] kind = "EAN 8" -> Ean8(d)
                    [] kind = "CODE 39" -> Code39(d)
                    [] kind = "ITF" -> Itf(d)
                    [] kind = "Nw7Codabar" -> Codabar(d)
                    [] kind = "Code93" -> Code93(d)
                    [] kind = "Code128" -> Code128(t)
                    [] OTHER -> Bad("Unknown barcode type")
    IN IF r.ok THEN [g |-> "barcode", bits |-> r.bits, text |-> IF kind = "Code128" THEN Code128Text(t) ELSE t]
       ELSE [g |-> "error", m |-> kind \o " " \o r.err \o " --> ",
             d |-> IF Utf8Valid(d0) THEN t ELSE <<>>, bad |-> ~Utf8Valid(d0)]
============================================================================
