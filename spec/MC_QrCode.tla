------------------------------ MODULE MC_QrCode ------------------------------
(***************************************************************************)
(* The reader of QR codes against a writer of its own: what is written in  *)
(* any version, level, mask and segmentation reads back; with any one      *)
(* module turned over it does not pass; and it does not pass as anything   *)
(* else than what was written.                                             *)
(***************************************************************************)
EXTENDS QrCode
CONSTANTS Symbols,      \* <<version, level, mask, segments>> to write; segments: <<mode, bytes>>
          Stride        \* every Stride-th module is turned over
VARIABLES mSym, mPts, mFlip
vars == <<mSym, mPts, mFlip>>

(* ------------------------------- the writer ---------------------------- *)
BitsOf(n, k) == [i \in 1 .. k |-> Bit(n, k - i)]
ValueOf(c) == CHOOSE i \in 0 .. 44 : LettersAndDigits[i + 1] = c
SegmentPayload(m, d) ==
    LET n == Len(d)  per == <<3, 2, 1, 2>>[m + 1]
        part(i) == SubSeq(d, per * (i - 1) + 1, Min2(per * i, n))
        digits(p) == FoldLeft(LAMBDA a, c : 10 * a + c - 48, 0, p)
        letters(p) == FoldLeft(LAMBDA a, c : 45 * a + ValueOf(c), 0, p)
        kanji(p) == LET w == 256 * p[1] + p[2] - (IF p[1] < 160 THEN 33088 ELSE 49472)
                    IN 192 * (w \div 256) + (w % 256)
    IN FlattenSeq([i \in 1 .. CeilDiv(n, per) |->
         CASE m = 0 -> BitsOf(digits(part(i)), 3 * Len(part(i)) + 1)
           [] m = 1 -> BitsOf(letters(part(i)), 5 * Len(part(i)) + 1)
           [] m = 2 -> BitsOf(part(i)[1], 8)
           [] m = 3 -> BitsOf(kanji(part(i)), 13)])
SegmentOf(v, m, d) ==
    BitsOf(IF Micro(v) THEN m ELSE <<1, 2, 4, 8>>[m + 1], ModeBits(v))
    \o BitsOf(IF m = 3 THEN Len(d) \div 2 ELSE Len(d), CountBits(v, m)) \o SegmentPayload(m, d)
Padded(v, l, s) ==
    LET room == DataBits(v, l)
        t == s \o Rep(0, Min2(TerminatorBits(v), room - Len(s)))
        u == t \o Rep(0, Min2(room, 8 * CeilDiv(Len(t), 8)) - Len(t))
        k == (room - Len(u)) \div 8
    IN u \o FlattenSeq([i \in 1 .. k |-> BitsOf(IF i % 2 = 1 THEN 236 ELSE 17, 8)]) \o Rep(0, room - Len(u) - 8 * k)
(* Reed Solomon: the remainder by the polynomial with the roots 2^0 .. 2^(k-1) *)
Generator(k) ==
    LET times(p, i) == LET q == <<0>> \o [h \in DOMAIN p |-> Times(p[h], i)]
                       IN [h \in 1 .. Len(p) + 1 |-> (IF h <= Len(p) THEN p[h] ELSE 0) ^^ q[h]]
    IN FoldLeft(times, <<1>>, [i \in 1 .. k |-> i - 1])
Parity(data, k) ==
    LET g == Generator(k)
        step(r, c) == LET lead == r[1] ^^ c  s == Append(Tail(r), 0)
                      IN IF lead = 0 THEN s ELSE [h \in 1 .. k |-> s[h] ^^ Times(g[h + 1], Log[lead])]
    IN FoldLeft(step, Rep(0, k), data)
WordsOf(bits) == [i \in 1 .. Len(bits) \div 8 |-> Number(bits, 8 * (i - 1) + 1, 8)]
(* the blocks one after the other, and interleaved *)
Interleaved(seqs) ==
    LET most == FoldLeft(LAMBDA a, s : Max2(a, Len(s)), 0, seqs)
    IN FlattenSeq([i \in 1 .. most |-> FlattenSeq([b \in DOMAIN seqs |-> IF i <= Len(seqs[b]) THEN <<seqs[b][i]>> ELSE <<>>])])
CodeStream(v, l, bits) ==
    IF Micro(v) THEN LET par == Parity(WordsOf(bits), MicroEc[v - 40][l]) IN bits \o FlattenSeq([i \in DOMAIN par |-> BitsOf(par[i], 8)])
    ELSE LET ws == WordsOf(bits)  nb == Blocks[l][v]  ec == EcWords[l][v]  total == TotalWords(v)
             short == total \div nb - ec  nshort == nb - (total % nb)
             from(b) == short * (b - 1) + Max2(0, b - 1 - nshort)
             data == [b \in 1 .. nb |-> SubSeq(ws, from(b) + 1, from(b) + short + (IF b > nshort THEN 1 ELSE 0))]
             par == [b \in 1 .. nb |-> Parity(data[b], ec)]
             all == Interleaved(data) \o Interleaved(par)
         IN FlattenSeq([i \in DOMAIN all |-> BitsOf(all[i], 8)])
Write(v, l, mask, segs) ==
    LET n == Side(v)  ps == Purposes(v)
        stream == CodeStream(v, l, Padded(v, l, FlattenSeq([i \in DOMAIN segs |-> SegmentOf(v, segs[i][1], segs[i][2])])))
        \* the place of each module on the path, and how many carry data up to it
        placeOf(x, y) == LET c == IF Micro(v) \/ x > 6 THEN (n - 1 - x) \div 2 ELSE (n - 2 - x) \div 2
                         IN 2 * n * c + 2 * (IF c % 2 = 0 THEN n - 1 - y ELSE y)
                            + (IF Micro(v) \/ x > 6 THEN n - 1 - x - 2 * c ELSE n - 2 - x - 2 * c)
        upTo == FoldLeft(LAMBDA s, k : LET p == PathAt(v, k - 1) IN
                           Append(s, (IF s = <<>> THEN 0 ELSE s[k - 1]) + (IF ps[p[2] * n + p[1] + 1] = 4 THEN 1 ELSE 0)),
                         <<>>, [k \in 1 .. n * (n - 1) |-> k])
        cell(x, y) == LET i == upTo[placeOf(x, y) + 1]
                          b == IF i <= Len(stream) THEN stream[i] ELSE 0
                      IN IF Masked(v, mask, x, y) THEN 1 - b ELSE b
        format == BitsOf(FormatWord(IF Micro(v) THEN 4 * MicroSymbols[v - 40][l] + mask ELSE 8 * LevelBits[l] + mask, Micro(v)), 15)
        version == BitsOf(VersionWord(v), 18)
        bitF(b) == format[15 - b]
        formatAt(x, y) ==
            IF Micro(v) THEN IF y = 8 THEN format[x] ELSE format[16 - y]
            ELSE IF x = 8 /\ y <= 5 THEN bitF(y) ELSE IF x = 8 /\ y = 7 THEN bitF(6) ELSE IF x = 8 /\ y = 8 THEN bitF(7)
            ELSE IF x = 7 /\ y = 8 THEN bitF(8) ELSE IF y = 8 /\ x <= 5 THEN bitF(14 - x)
            ELSE IF y = 8 THEN bitF(n - 1 - x) ELSE bitF(15 - n + y)
        versionAt(x, y) == IF x < 6 THEN version[18 - (3 * x + y - n + 11)] ELSE version[18 - (3 * y + x - n + 11)]
    IN [k \in 1 .. n * n |->
         LET x == (k - 1) % n  y == (k - 1) \div n IN
         CASE ps[k] < 2 -> ps[k] [] ps[k] = 2 -> formatAt(x, y) [] ps[k] = 3 -> versionAt(x, y) [] OTHER -> cell(x, y)]

(* ------------------------------- behaviours ---------------------------- *)
DataOf(s) == FlattenSeq([i \in DOMAIN s[4] |-> s[4][i][2]])
Init == mSym \in Symbols /\ mPts = <<>> /\ mFlip = 0
Writes == mPts = <<>> /\ mPts' = TLCEval(Write(mSym[1], mSym[2], mSym[3], mSym[4])) /\ UNCHANGED <<mSym, mFlip>>
TurnsOver ==
    /\ mPts # <<>> /\ mFlip = 0
    /\ \E k \in DOMAIN mPts : k % (IF Len(mPts) > 2000 THEN 40 * Stride ELSE Stride) = 1 /\ mFlip' = k /\ mPts' = [mPts EXCEPT ![k] = 1 - @]
    /\ UNCHANGED mSym
Next == Writes \/ TurnsOver
MCSpec == Init /\ [][Next]_vars
Settings(s) == [model |-> IF Micro(s[1]) THEN 3 ELSE 2, ec |-> Levels[s[2]], size |-> 3]
Judged(q, d) == SymbolFault(q, <<48>> \o d, <<Side(mSym[1]), Side(mSym[1]) * Side(mSym[1]), 3, 3>>, mPts)

HalfWord == Micro(mSym[1]) /\ mSym[1] % 2 = 1       \* their error correction is not read
ReadsBack == mPts # <<>> /\ mFlip = 0 => Judged(Settings(mSym), DataOf(mSym)) = ""
OneModuleTells == mFlip # 0 /\ ~HalfWord => Judged(Settings(mSym), DataOf(mSym)) # ""
NothingElse == mPts # <<>> /\ mFlip = 0 =>
    LET q == Settings(mSym)  d == DataOf(mSym) IN
    /\ Judged(q, Append(d, 48)) # ""
    /\ d # <<>> => Judged(q, Front(d)) # "" /\ Judged(q, [d EXCEPT ![1] = (@ + 1) % 256]) # ""
    /\ \A l \in 1 .. 4 : l # mSym[2] => Judged([q EXCEPT !.ec = Levels[l]], d) # ""
    /\ Judged([q EXCEPT !.model = 5 - @], d) # ""
    /\ Judged([q EXCEPT !.size = 4], d) # ""

(* the tables against each other *)
ASSUME Tables ==
    /\ \A v \in 1 .. 40 : /\ LET ps == Purposes(v) IN Len(SelectSeq(ps, LAMBDA k : k = 4)) = DataModules(v)
                          /\ \A l \in 1 .. 4 : DataBits(v, l) > 0 /\ (l > 1 => DataBits(v, l) < DataBits(v, l - 1))
                          /\ v > 1 => \A l \in 1 .. 4 : DataBits(v, l) > DataBits(v - 1, l)
    /\ \A v \in 41 .. 44 : \A l \in 1 .. 4 : DataBits(v, l) > 0 => DataBits(v, l) + 8 * MicroEc[v - 40][l] = DataModules(v)
    /\ <<ByteRoom(1), ByteRoom(9), ByteRoom(10), ByteRoom(26), ByteRoom(27), ByteRoom(40)>> = <<17, 230, 271, 1367, 1465, 2953>>
    /\ Len(Exp) = 510 /\ Exp[256] = 1 /\ \A a \in 1 .. 255 : \E i \in 1 .. 255 : Exp[i] = a

D(n) == [i \in 1 .. n |-> 48 + ((i * 7) % 10)]
A(n) == [i \in 1 .. n |-> LettersAndDigits[((i * 11) % 45) + 1]]
B(n) == [i \in 1 .. n |-> (i * 37) % 256]
K(n) == FlattenSeq([i \in 1 .. n |-> <<<<129, 64>>, <<159, 252>>, <<224, 64>>, <<234, 126>>>>[(i % 4) + 1]])
SomeSymbols ==
    {<<1, l, m, <<<<2, B(5)>>>>>> : l \in 1 .. 4, m \in 0 .. 7}
    \cup {<<1, 1, m, <<<<0, D(7)>>, <<1, A(5)>>, <<3, K(2)>>>>>> : m \in {0, 5}}
    \cup {<<1, 4, 2, <<>>>>, <<1, 2, 3, <<<<2, B(14)>>>>>>}
    \cup {<<2, l, l, <<<<2, B(<<20, 20, 14, 12>>[l])>>>>>> : l \in 1 .. 4} \cup {<<3, 3, 6, <<<<2, B(32)>>>>>>}
    \cup {<<5, 3, 4, <<<<2, B(60)>>>>>>, <<7, 3, 1, <<<<2, B(80)>>>>>>, <<10, 4, 7, <<<<2, B(110)>>>>>>}
    \cup {<<41, 1, m, <<<<0, D(n)>>>>>> : m \in 0 .. 3, n \in {1, 4, 5}}
    \cup {<<42, l, 1, <<<<0, D(3)>>, <<1, A(1)>>>>>> : l \in 1 .. 2} \cup {<<42, 1, 2, <<<<0, D(10)>>>>>>}
    \cup {<<43, l, 3, <<<<2, B(6)>>, <<0, D(1)>>>>>> : l \in 1 .. 2} \cup {<<43, 1, 0, <<<<3, K(3)>>>>>>}
    \cup {<<44, l, l, <<<<1, A(3)>>, <<2, B(<<7, 7, 5>>[l])>>>>>> : l \in 1 .. 3} \cup {<<44, 1, 0, <<<<3, K(8)>>>>>>, <<44, 3, 3, <<<<0, D(21)>>>>>>}
MoreSymbols ==
    SomeSymbols \cup {<<v, l, (v + l) % 8, <<<<2, B((DataBits(v, l) - 4 - CountBits(v, 2)) \div 8)>>>>>> : v \in 1 .. 12, l \in 1 .. 4}
    \cup {<<v, 3, v % 8, <<<<1, A(5)>>, <<2, B((DataBits(v, 3) - 70) \div 8)>>>>>> : v \in {15, 20, 26, 27, 32, 36, 40}}
==============================================================================
