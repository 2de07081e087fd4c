----------------------------- MODULE MC_CodePages ----------------------------
(* The tables of characters, and decoding, for every byte in every table.    *)
EXTENDS CodePages, TLC
VARIABLES mCt, mCs
vars == <<mCt, mCs>>
Init == mCt = 0 /\ mCs \in Byte
Next == mCt < 255 /\ mCt' = mCt + 1 /\ UNCHANGED mCs
MCSpec == Init /\ [][Next]_vars

Scalar(x) == x \in 0 .. 55295 \/ x \in 57344 .. 1114111
(* characters are Unicode scalar values; -1 stands for a byte that prints nothing *)
Chars == \A b \in Byte : LET x == CharOf(mCt, mCs, b) IN x = -1 \/ Scalar(x)
(* an international set changes nothing but the characters it names *)
Lower == \A b \in 0 .. 127 : b \notin DOMAIN CharsetMap[mCs] => CharOf(mCt, mCs, b) = b
Upper == \A b \in 128 .. 255 : CharOf(mCt, mCs, b) = CharOf(mCt, 0, b)
SetsAreLower == DOMAIN CharsetMap[mCs] \subseteq 32 .. 126
(* text is decoded byte by byte, so cutting it anywhere changes nothing *)
Bytewise == mCt # 255 => \A b \in {0, 35, 64, 128, 200, 255} :
    DecodeText(mCt, mCs, <<97, b, 98>>) = DecodeText(mCt, mCs, <<97>>) \o DecodeText(mCt, mCs, <<b>>) \o DecodeText(mCt, mCs, <<98>>)
(* UTF-8: the encoding of a character decodes to it, and no other byte string does *)
Encode(x) == IF x < 128 THEN <<x>>
             ELSE IF x < 2048 THEN <<192 + x \div 64, 128 + (x % 64)>>
             ELSE IF x < 65536 THEN <<224 + x \div 4096, 128 + ((x \div 64) % 64), 128 + (x % 64)>>
             ELSE <<240 + x \div 262144, 128 + ((x \div 4096) % 64), 128 + ((x \div 64) % 64), 128 + (x % 64)>>
Sample == {x \in {mCt * 256 + mCs, 1114111 - mCt * 256 - mCs, 65536 + mCs * 4096 + mCt} : Scalar(x) /\ x >= 0}
Utf8RoundTrip == \A x \in Sample : Utf8Parts(Encode(x)) = <<x>> /\ Utf8Valid(Encode(x))
Utf8TwoBytes ==     \* every pair of bytes: valid just when it encodes what it decodes to
    LET t == Utf8Parts(<<mCt, mCs>>)
    IN Utf8Valid(<<mCt, mCs>>) <=> FlattenSeq([i \in DOMAIN t |-> IF t[i] < 0 THEN <<>> ELSE Encode(t[i])]) = <<mCt, mCs>>
==============================================================================
