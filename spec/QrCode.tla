-------------------------------- MODULE QrCode --------------------------------
(***************************************************************************)
(* A reader of QR codes, after ISO/IEC 18004: normal symbols of version 1  *)
(* to 40, and micro symbols of version 1 to 4.  It reads the modules of a  *)
(* symbol back into the data it carries, and says what is wrong with it:   *)
(* patterns that are not in place, format or version information that is   *)
(* not what it should be, code words that are no Reed Solomon code words,  *)
(* segments that cannot be read, other data, a version that is not the one *)
(* to expect.                                                              *)
(*                                                                         *)
(* A symbol is sym = <<modules in a row, modules, module width, module     *)
(* height>> and its modules pts, row by row, 1 dark and 0 light; it is     *)
(* <<>> when the data could not be encoded.                                *)
(***************************************************************************)
EXTENDS Style, Bitwise, TLC

(* -------------------------------- versions ----------------------------- *)
(* v = 1 .. 40 normal, 41 .. 44 micro *)
Micro(v) == v > 40
Side(v) == IF Micro(v) THEN 9 + 2 * (v - 40) ELSE 17 + 4 * v
Levels == <<"L", "M", "Q", "H">>
LevelNo(ec) == CHOOSE i \in 1 .. 4 : Levels[i] = ec

(* code words of error correction in a block, and blocks: L, M, Q, H *)
EcWords == <<
  <<7,10,15,20,26,18,20,24,30,18,20,24,26,30,22,24,28,30,28,28,28,28,30,30,26,28,30,30,30,30,30,30,30,30,30,30,30,30,30,30>>,
  <<10,16,26,18,24,16,18,22,22,26,30,22,22,24,24,28,28,26,26,26,26,28,28,28,28,28,28,28,28,28,28,28,28,28,28,28,28,28,28,28>>,
  <<13,22,18,26,18,24,18,22,20,24,28,26,24,20,30,24,28,28,26,30,28,30,30,30,30,28,30,30,30,30,30,30,30,30,30,30,30,30,30,30>>,
  <<17,28,22,16,22,28,26,26,24,28,24,28,22,24,24,30,28,28,26,28,30,24,30,30,30,30,30,30,30,30,30,30,30,30,30,30,30,30,30,30>> >>
Blocks == <<
  <<1,1,1,1,1,2,2,2,2,4,4,4,4,4,6,6,6,6,7,8,8,9,9,10,12,12,12,13,14,15,16,17,18,19,19,20,21,22,24,25>>,
  <<1,1,1,2,2,4,4,4,5,5,5,8,9,9,10,10,11,13,14,16,17,17,18,20,21,23,25,26,28,29,31,33,35,37,38,40,43,45,47,49>>,
  <<1,1,2,2,4,4,6,6,8,8,8,10,12,16,12,17,16,18,21,20,23,23,25,27,29,34,34,35,38,40,43,45,48,51,53,56,59,62,65,68>>,
  <<1,1,2,4,4,4,5,6,8,8,11,11,16,16,18,16,19,21,25,25,25,34,30,32,35,37,40,42,45,48,51,54,57,60,63,66,70,74,77,81>> >>
(* micro: bits of data, and code words of error correction; 0 where there is no such level *)
MicroBits == << <<20, 0, 0, 0>>, <<40, 32, 0, 0>>, <<84, 68, 0, 0>>, <<128, 112, 80, 0>> >>
MicroEc == << <<2, 0, 0, 0>>, <<5, 6, 0, 0>>, <<6, 8, 0, 0>>, <<8, 10, 14, 0>> >>

(* where alignment patterns have their centres, along either side *)
AlignAt(v) ==
    IF v = 1 \/ Micro(v) THEN <<>>
    ELSE LET k == v \div 7 + 2
             step == IF v = 32 THEN 26 ELSE 2 * CeilDiv(4 * v + 4, 2 * k - 2)
         IN [i \in 1 .. k |-> IF i = 1 THEN 6 ELSE Side(v) - 7 - (k - i) * step]
(* modules that carry code words *)
DataModules(v) ==
    LET k == v \div 7 + 2 IN
    IF Micro(v) THEN (Side(v) - 1) * (Side(v) - 1) - 64
    ELSE ((16 * v + 128) * v) + 64 - (IF v > 1 THEN (25 * k - 10) * k - 55 ELSE 0) - (IF v > 6 THEN 36 ELSE 0)
TotalWords(v) == DataModules(v) \div 8
DataBits(v, l) ==
    IF Micro(v) THEN MicroBits[v - 40][l] ELSE 8 * (TotalWords(v) - EcWords[l][v] * Blocks[l][v])

(* ------------------------------- segments ------------------------------ *)
(* modes: 0 digits, 1 letters and digits, 2 bytes, 3 kanji *)
ModeBits(v) == IF Micro(v) THEN v - 41 ELSE 4
CountBits(v, m) ==      \* 0 where the version does not have the mode
    IF Micro(v) THEN << <<3, 4, 5, 6>>, <<0, 3, 4, 5>>, <<0, 0, 4, 5>>, <<0, 0, 3, 4>> >>[m + 1][v - 40]
    ELSE << <<10, 12, 14>>, <<9, 11, 13>>, <<8, 16, 16>>, <<8, 10, 12>> >>[m + 1][IF v < 10 THEN 1 ELSE IF v < 27 THEN 2 ELSE 3]
PayloadBits(m, count) ==
    CASE m = 0 -> 10 * (count \div 3) + <<0, 4, 7>>[(count % 3) + 1]
      [] m = 1 -> 11 * (count \div 2) + 6 * (count % 2)
      [] m = 2 -> 8 * count
      [] m = 3 -> 13 * count
TerminatorBits(v) == IF Micro(v) THEN 2 * (v - 40) + 1 ELSE 4
LettersAndDigits == <<48,49,50,51,52,53,54,55,56,57,65,66,67,68,69,70,71,72,73,74,75,76,77,78,79,80,81,82,
                      83,84,85,86,87,88,89,90,32,36,37,42,43,45,46,47,58>>

(* ------------------------------ the patterns --------------------------- *)
(* What the module in column x of row y is for: 0 and 1 where it is fixed, *)
(* 2 format and 3 version information, 4 code words                        *)
Ring(dx, dy) == Max2(Max2(dx, -dx), Max2(dy, -dy))
Finder(x, y) ==         \* relative to its corner; -1 .. 7, the rim is light
    LET k == Ring(x - 3, y - 3) IN IF k \in {2, 4} THEN 0 ELSE 1
Purpose(v, al, x, y) ==
    LET n == Side(v) IN
    IF Micro(v) THEN
        IF x < 8 /\ y < 8 THEN Finder(x, y)
        ELSE IF x = 0 THEN 1 - (y % 2) ELSE IF y = 0 THEN 1 - (x % 2)
        ELSE IF x <= 8 /\ y <= 8 THEN 2 ELSE 4
    ELSE IF x < 8 /\ y < 8 THEN Finder(x, y)
    ELSE IF x >= n - 8 /\ y < 8 THEN Finder(x - n + 7, y)
    ELSE IF x < 8 /\ y >= n - 8 THEN Finder(x, y - n + 7)
    ELSE IF x = 6 THEN 1 - (y % 2) ELSE IF y = 6 THEN 1 - (x % 2)
    ELSE IF x = 8 /\ y = n - 8 THEN 1
    ELSE IF (x = 8 /\ (y <= 8 \/ y > n - 8)) \/ (y = 8 /\ (x <= 8 \/ x >= n - 8)) THEN 2
    ELSE IF v > 6 /\ ((x < 6 /\ y >= n - 11) \/ (y < 6 /\ x >= n - 11)) THEN 3
    ELSE 4
(* alignment patterns lie over the timing patterns, and look the same there *)
InAlignment(al, x, y) ==
    \E i, k \in DOMAIN al : /\ ~(i = 1 /\ k = 1) /\ ~(i = 1 /\ k = Len(al)) /\ ~(i = Len(al) /\ k = 1)
                            /\ x - al[i] \in -2 .. 2 /\ y - al[k] \in -2 .. 2
AlignmentModule(al, x, y) ==
    LET near(q) == CHOOSE i \in DOMAIN al : q - al[i] \in -2 .. 2
        k == Ring(x - al[near(x)], y - al[near(y)])
    IN IF k = 1 THEN 0 ELSE 1
(* the modules of a symbol of version v, row by row *)
Purposes(v) ==
    LET n == Side(v)  al == AlignAt(v)
        lines == {x \in 0 .. n - 1 : \E i \in DOMAIN al : x - al[i] \in -2 .. 2}
    IN TLCEval([k \in 1 .. n * n |->
         LET x == (k - 1) % n  y == (k - 1) \div n IN
         IF x \in lines /\ y \in lines /\ InAlignment(al, x, y) THEN AlignmentModule(al, x, y)
         ELSE Purpose(v, al, x, y)])

(* The order in which code words lie: columns in pairs from the right, up  *)
(* and down in turn, leaving out the column of the vertical timing pattern *)
PathAt(v, k) ==      \* the k-th place, counted from 0: <<x, y>>
    LET n == Side(v)  c == k \div (2 * n)  i == k % (2 * n)
        right == n - 1 - 2 * c - (IF ~Micro(v) /\ n - 1 - 2 * c < 7 THEN 1 ELSE 0)
    IN <<right - (i % 2), IF c % 2 = 0 THEN n - 1 - (i \div 2) ELSE i \div 2>>
Masked(v, mask, x, y) ==
    LET m == IF Micro(v) THEN <<1, 4, 6, 7>>[mask + 1] ELSE mask IN
    CASE m = 0 -> (x + y) % 2 = 0
      [] m = 1 -> y % 2 = 0
      [] m = 2 -> x % 3 = 0
      [] m = 3 -> (x + y) % 3 = 0
      [] m = 4 -> ((x \div 3) + (y \div 2)) % 2 = 0
      [] m = 5 -> ((x * y) % 2) + ((x * y) % 3) = 0
      [] m = 6 -> (((x * y) % 2) + ((x * y) % 3)) % 2 = 0
      [] m = 7 -> (((x + y) % 2) + ((x * y) % 3)) % 2 = 0

(* ----------------------------- reading bits ---------------------------- *)
Number(bits, from, k) == FoldLeft(LAMBDA a, i : 2 * a + bits[from + i], 0, [i \in 1 .. k |-> i - 1])
RECURSIVE Remainder(_, _, _, _)     \* of a times x^k by the generator g of degree k
Remainder(a, k, g, i) ==
    IF i < 0 THEN a
    ELSE Remainder(IF Bit(a, i + k) = 1 THEN a ^^ (g * 2 ^ i) ELSE a, k, g, i - 1)
WithBch(data, bits, k, g) == data * 2 ^ k + Remainder(data * 2 ^ k, k, g, bits - 1)
FormatWord(data, micro) == WithBch(data, 5, 10, 1335) ^^ (IF micro THEN 17477 ELSE 21522)
VersionWord(v) == WithBch(v, 6, 12, 7973)
LevelBits == <<1, 0, 3, 2>>         \* L, M, Q, H
MicroSymbols == << <<0>>, <<1, 2>>, <<3, 4>>, <<5, 6, 7>> >>

(* ----------------------- Reed Solomon code words ----------------------- *)
Exp == LET step(s, i) == Append(s, LET a == 2 * s[i] IN IF a > 255 THEN a ^^ 285 ELSE a)
       IN FoldLeft(step, <<1>>, [i \in 1 .. 509 |-> i])
Log == [a \in 1 .. 255 |-> CHOOSE i \in 0 .. 254 : Exp[i + 1] = a]
Times(a, i) == IF a = 0 THEN 0 ELSE Exp[Log[a] + i + 1]          \* a * 2^i in the field
Syndrome(word, i) == FoldLeft(LAMBDA s, c : Times(s, i) ^^ c, 0, word)
IsCodeWord(word, ec) == \A i \in 0 .. ec - 1 : Syndrome(word, i) = 0

(* the b-th block, counted from 0, of the interleaved code words *)
BlockOf(words, total, ec, nb, b) ==
    LET short == total \div nb - ec  data == total - ec * nb  nshort == nb - (total % nb)
    IN [i \in 1 .. short |-> words[(i - 1) * nb + b + 1]]
       \o (IF b >= nshort THEN <<words[short * nb + b - nshort + 1]>> ELSE <<>>)
       \o [i \in 1 .. ec |-> words[data + (i - 1) * nb + b + 1]]

(* ------------------------------ the segments --------------------------- *)
(* Reads the segments from the bits: the data, and what the segments are;  *)
(* ok is FALSE where they cannot be read                                   *)
RECURSIVE ReadSegments(_, _, _, _, _)
ReadSegments(v, bits, at, data, segs) ==
    LET mb == ModeBits(v)  left == Len(bits) - at + 1
        end == [ok |-> TRUE, data |-> data, segs |-> segs, at |-> at + Min2(left, TerminatorBits(v))]
        bad == [ok |-> FALSE, data |-> data, segs |-> segs, at |-> at]
        raw == Number(bits, at, mb)
        mode == IF Micro(v) THEN raw
                ELSE CASE raw = 1 -> 0 [] raw = 2 -> 1 [] raw = 4 -> 2 [] raw = 8 -> 3 [] OTHER -> 9
    IN IF left < TerminatorBits(v) THEN IF Number(bits, at, left) = 0 THEN end ELSE bad
       ELSE IF Number(bits, at, TerminatorBits(v)) = 0 THEN end
       ELSE IF mode > 3 \/ left < mb + 3 THEN bad
       ELSE LET cb == CountBits(v, mode)
                count == Number(bits, at + mb, cb)
                from == at + mb + cb
                next == from + PayloadBits(mode, count)
                \* three digits, two letters, a byte, a kanji at a time
                per == <<3, 2, 1, 1>>[mode + 1]  wide == <<10, 11, 8, 13>>[mode + 1]
                groups == CeilDiv(count, per)
                value(i) == Number(bits, from + (i - 1) * wide, Min2(wide, next - from - (i - 1) * wide))
                chars(i) == Min2(per, count - per * (i - 1))
                kanji(n) == (IF (n \div 192) * 256 + (n % 192) < 7936 THEN 33088 ELSE 49472) + (n \div 192) * 256 + (n % 192)
                decoded(i) ==
                    LET n == value(i) IN
                    CASE mode = 0 -> LET k == chars(i) IN [j \in 1 .. k |-> 48 + ((n \div (10 ^ (k - j))) % 10)]
                      [] mode = 1 -> IF chars(i) = 2 THEN <<LettersAndDigits[n \div 45 + 1], LettersAndDigits[(n % 45) + 1]>>
                                     ELSE <<LettersAndDigits[n + 1]>>
                      [] mode = 2 -> <<n>>
                      [] mode = 3 -> <<kanji(n) \div 256, kanji(n) % 256>>
                valid(i) == CASE mode = 0 -> value(i) < 10 ^ chars(i)
                              [] mode = 1 -> value(i) < 45 ^ chars(i)
                              [] OTHER -> TRUE
            IN IF cb = 0 \/ next > Len(bits) + 1 \/ ~\A i \in 1 .. groups : valid(i) THEN bad
               ELSE ReadSegments(v, bits, next,
                                 data \o (IF mode = 2 THEN [i \in 1 .. count |-> value(i)]
                                          ELSE FlattenSeq([i \in 1 .. groups |-> decoded(i)])),
                                 Append(segs, <<mode, count>>))
(* the bits the segments take in version v; too many where it lacks a mode *)
SegmentBits(v, segs) ==
    FoldLeft(LAMBDA a, s : IF CountBits(v, s[1]) = 0 \/ s[2] >= 2 ^ CountBits(v, s[1]) THEN BigLen
                           ELSE Min2(BigLen, a) + ModeBits(v) + CountBits(v, s[1]) + PayloadBits(s[1], s[2]), 0, segs)
(* after the terminator: zeros to the end of the code word, then 236 and 17 in turn *)
PaddingOk(v, bits, at) ==
    LET first == 8 * CeilDiv(at - 1, 8) + 1
        words == Max2(0, (Len(bits) - first + 1) \div 8)
    IN /\ \A i \in at .. Min2(first - 1, Len(bits)) : bits[i] = 0
       /\ \A k \in 1 .. words : Number(bits, first + 8 * (k - 1), 8) = IF k % 2 = 1 THEN 236 ELSE 17
       /\ \A i \in first + 8 * words .. Len(bits) : bits[i] = 0

(* ------------------- which version, and whether it fits ---------------- *)
(* Versions are tried from the one that holds the data as bytes at level L *)
ByteRoom(v) == (DataBits(v, 1) - 4 - CountBits(v, 2)) \div 8
Versions(q) == CASE q.model = 1 -> <<1, 14>> [] q.model = 2 -> <<1, 40>> [] OTHER -> <<41, 44>>
RECURSIVE Smallest(_, _, _)
Smallest(v, last, n) == IF v = last \/ ByteRoom(v) >= n THEN v ELSE Smallest(v + 1, last, n)
FirstVersion(q, n) ==
    IF q.model = 3 THEN 40 + Smallest(1, 4, n) ELSE Smallest(1, Versions(q)[2], n)

(* The least bits data takes in any segments of digits, letters and bytes  *)
(* (kanji may take less, depending on which bytes are taken as pairs).     *)
(* States: 1 to 3 within three digits, 4 and 5 within two letters, 6 bytes *)
LeastBits(v, d) ==
    LET head(m) == IF CountBits(v, m) = 0 THEN BigLen ELSE ModeBits(v) + CountBits(v, m)
        least(a) == FoldLeft(LAMBDA x, y : Min2(x, y), BigLen, a)
        digit(b) == b \in 48 .. 57
        letter(b) == \E i \in DOMAIN LettersAndDigits : LettersAndDigits[i] = b
        add(x, y) == IF x >= BigLen THEN BigLen ELSE Min2(BigLen, x + y)
        step(a, b) ==
            LET any == least(a)  dg == digit(b)  lt == letter(b)
            IN TLCEval(<<IF dg THEN Min2(add(a[3], 4), add(any, head(0) + 4)) ELSE BigLen,
                 IF dg THEN add(a[1], 3) ELSE BigLen,
                 IF dg THEN add(a[2], 3) ELSE BigLen,
                 IF lt THEN Min2(add(a[5], 6), add(any, head(1) + 6)) ELSE BigLen,
                 IF lt THEN add(a[4], 5) ELSE BigLen,
                 Min2(add(a[6], 8), add(any, head(2) + 8))>>)
        h(ok, m, x) == IF ok THEN add(0, head(m) + x) ELSE BigLen
        first(b) == <<h(digit(b), 0, 4), BigLen, BigLen, h(letter(b), 1, 6), BigLen, h(TRUE, 2, 8)>>
    IN IF d = <<>> THEN 0 ELSE least(FoldLeft(step, first(d[1]), Tail(d)))
Fits(v, l, d) == DataBits(v, l) > 0 /\ LeastBits(v, d) <= DataBits(v, l)

(* -------------------------------- the verdict -------------------------- *)
MicroLevel(v, sn) == CHOOSE i \in DOMAIN MicroSymbols[v - 40] : MicroSymbols[v - 40][i] = sn
ReadFault(q, d, v, pts) ==
    LET n == Side(v)
        at(x, y) == pts[y * n + x + 1]
        purposes == Purposes(v)
        patterns == \A k \in DOMAIN pts : purposes[k] < 2 => pts[k] = purposes[k]
        \* format information, the most significant bit first
        format1 == IF Micro(v) THEN [i \in 1 .. 15 |-> IF i <= 8 THEN at(i, 8) ELSE at(8, 16 - i)]
                   ELSE [i \in 1 .. 15 |-> LET b == 15 - i IN      \* bit b
                         CASE b <= 5 -> at(8, b) [] b = 6 -> at(8, 7) [] b = 7 -> at(8, 8)
                           [] b = 8 -> at(7, 8) [] OTHER -> at(14 - b, 8)]
        format2 == IF Micro(v) THEN format1
                   ELSE [i \in 1 .. 15 |-> LET b == 15 - i IN
                         IF b <= 7 THEN at(n - 1 - b, 8) ELSE at(8, n - 15 + b)]
        word == Number(format1, 1, 15)
        five == (word ^^ (IF Micro(v) THEN 17477 ELSE 21522)) \div 1024
        mask == IF Micro(v) THEN five % 4 ELSE five % 8
        l == LevelNo(q.ec)
        levelOk == IF Micro(v) THEN l <= Len(MicroSymbols[v - 40]) /\ MicroSymbols[v - 40][l] = five \div 4
                   ELSE LevelBits[l] = five \div 8
        version1 == [i \in 1 .. 18 |-> at(n - 11 + ((18 - i) % 3), (18 - i) \div 3)]
        version2 == [i \in 1 .. 18 |-> at((18 - i) \div 3, n - 11 + ((18 - i) % 3))]
        places == [k \in 1 .. n * (n - 1) |->
                     LET p == PathAt(v, k - 1) IN
                     IF purposes[p[2] * n + p[1] + 1] # 4 THEN 2
                     ELSE IF Masked(v, mask, p[1], p[2]) THEN 1 - at(p[1], p[2]) ELSE at(p[1], p[2])]
        stream == SelectSeq(places, LAMBDA b : b # 2)
        \* normal symbols
        words == [i \in 1 .. TotalWords(v) |-> Number(stream, 8 * (i - 1) + 1, 8)]
        ec == EcWords[l][v]  nb == Blocks[l][v]
        blocks == [b \in 1 .. nb |-> BlockOf(words, TotalWords(v), ec, nb, b - 1)]
        plain == FlattenSeq([b \in 1 .. nb |-> SubSeq(blocks[b], 1, Len(blocks[b]) - ec)])
        \* micro symbols: one block, whose last word of data may be half a word
        mbits == MicroBits[v - 40][l]  mec == MicroEc[v - 40][l]
        mblock == [i \in 1 .. mbits \div 8 |-> Number(stream, 8 * (i - 1) + 1, 8)]
                  \o [i \in 1 .. mec |-> Number(stream, mbits + 8 * (i - 1) + 1, 8)]
        codeOk == IF Micro(v) THEN mbits % 8 = 0 => IsCodeWord(mblock, mec)
                  ELSE \A b \in 1 .. nb : IsCodeWord(blocks[b], ec)
        bits == IF Micro(v) THEN SubSeq(stream, 1, mbits)
                ELSE FlattenSeq([i \in DOMAIN plain |-> [k \in 1 .. 8 |-> Bit(plain[i], 8 - k)]])
        read == ReadSegments(v, bits, 1, <<>>, <<>>)
    IN IF ~patterns THEN "a pattern is not in place"
       ELSE IF word # FormatWord(five, Micro(v)) \/ format2 # format1 THEN "the format information is wrong"
       ELSE IF ~levelOk THEN "not the level of error correction that was set"
       ELSE IF ~Micro(v) /\ v > 6 /\ (Number(version1, 1, 18) # VersionWord(v) \/ version2 # version1)
       THEN "the version information is wrong"
       ELSE IF Len(stream) # DataModules(v) THEN "the path is wrong"
       ELSE IF \E i \in 8 * TotalWords(v) + 1 .. Len(stream) : ~Micro(v) /\ stream[i] # 0
       THEN "the modules left over are not of the mask"
       ELSE IF ~codeOk THEN "the code words are not of the code"
       ELSE IF ~read.ok THEN "a segment cannot be read"
       ELSE IF read.data # d THEN "it reads as other data"
       ELSE IF ~PaddingOk(v, bits, read.at) THEN "the padding is wrong"
       ELSE IF v < FirstVersion(q, Len(d)) THEN "a version smaller than expected"
       ELSE IF /\ v > FirstVersion(q, Len(d))
               /\ DataBits(v - 1, l) > 0 /\ SegmentBits(v - 1, read.segs) <= DataBits(v - 1, l)
       THEN "a version larger than needed"
       ELSE ""

VersionOfSide(q, n) ==      \* 0 where there is none the model allows
    LET r == Versions(q)
        v == IF q.model = 3 THEN 40 + (n - 9) \div 2 ELSE (n - 17) \div 4
    IN IF n > 10 /\ v >= r[1] /\ v <= r[2] /\ Side(v) = n THEN v ELSE 0

(* What is wrong with the symbol for the operands d of the store function  *)
(* (the parameter m, then the data) under the settings q: "" when nothing  *)
SymbolFault(q, d, sym, pts) ==
    LET data == Tail2(d, 1) IN
    IF sym = <<>> THEN
        IF \E v \in FirstVersion(q, Len(data)) .. Versions(q)[2] : Fits(v, LevelNo(q.ec), data)
        THEN "not encoded though there is room" ELSE ""
    ELSE IF sym[1] * sym[1] # sym[2] \/ Len(pts) # sym[2] \/ VersionOfSide(q, sym[1]) = 0 THEN "no such size"
    ELSE IF sym[3] # q.size \/ sym[4] # q.size THEN "not the module size that was set"
    ELSE ReadFault(q, data, VersionOfSide(q, sym[1]), pts)
==============================================================================
