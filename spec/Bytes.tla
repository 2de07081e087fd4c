------------------------------- MODULE Bytes -------------------------------
(***************************************************************************)
(* Byte strings are sequences over 0..255.  Small helpers shared by every  *)
(* module of the specification of thermal.                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt

Byte == 0 .. 255

NUL == 0   HT == 9    LF == 10   FF == 12   CR == 13
DLE == 16  CAN == 24  ESC == 27  FS == 28   GS == 29

Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b

(* a - b, never below zero *)
Sub0(a, b) == IF a > b THEN a - b ELSE 0

(* i-th operand (counted from 0) of d, or the default when it is missing *)
Opd(d, i, default) == IF Len(d) > i THEN d[i + 1] ELSE default

(* Little endian numbers; missing bytes count as zero *)
U16(d, i) == Opd(d, i, 0) + 256 * Opd(d, i + 1, 0)

(* TLC integers are 32 bit: everything beyond BigLen is "more than any stream" *)
BigLen == 1000000000
U32(d, i) ==
    LET b3 == Opd(d, i + 3, 0)  b2 == Opd(d, i + 2, 0)
    IN  IF b3 > 50 THEN BigLen
        ELSE Opd(d, i, 0) + 256 * Opd(d, i + 1, 0) + 65536 * b2 + 16777216 * b3
Mul(a, b) == IF a = 0 \/ b = 0 THEN 0 ELSE IF a > BigLen \div b THEN BigLen ELSE a * b

Tail2(s, k) == SubSeq(s, k + 1, Len(s))          \* s without its first k elements
Take(s, k) == SubSeq(s, 1, Min2(k, Len(s)))
StartsWith(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p
CeilDiv(a, b) == (a + b - 1) \div b
Bit(n, k) == (n \div (2 ^ k)) % 2
Odd(n) == n % 2 = 1
Rep(x, n) == [i \in 1 .. n |-> x]
============================================================================
