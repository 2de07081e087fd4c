----------------------------- MODULE ThermalFile -----------------------------
(***************************************************************************)
(* The .thermal text format.  A text is a sequence of Unicode code points. *)
(*                                                                         *)
(* Part 1 is the reader, declaratively: which lines a text has, which      *)
(* token starts where, and which bytes a token denotes.  Part 2 is the     *)
(* tokenizer as a machine that sees one character at a time (the shape of  *)
(* the implementation).  Part 3 is a writer of commands.  MC_ThermalFile   *)
(* checks that 1 and 2 agree and that what 3 writes 1 reads back.          *)
(***************************************************************************)
EXTENDS Parser, FiniteSets

Quote == 34   Backslash == 92   Space == 32   Apostrophe == 39   Slash == 47

(* UTF-8 *)
Utf8(c) ==
    LET cont(k) == 128 + ((c \div k) % 64)
    IN IF c < 128 THEN <<c>>
       ELSE IF c < 2048 THEN <<192 + (c \div 64), cont(1)>>
       ELSE IF c < 65536 THEN <<224 + (c \div 4096), cont(64), cont(1)>>
       ELSE <<240 + (c \div 262144), cont(4096), cont(64), cont(1)>>
Utf8Of(t) == FlattenSeq([i \in DOMAIN t |-> Utf8(t[i])])

(* --------------------------- 1. the reader ----------------------------- *)
(* What separates tokens, and what a blank line may consist of             *)
Separator(c) == c \in {9, 10, 12, 13, 32}
White(c) == c \in (9 .. 13) \cup {32, 133, 160, 5760, 8232, 8233, 8239, 8287, 12288} \cup (8192 .. 8202)

(* The line that starts at p: a line end is LF or CR LF and no part of it  *)
LineEnd(t, p) ==
    IF \A q \in p .. Len(t) : t[q] # LF THEN Len(t) + 1
    ELSE CHOOSE q \in p .. Len(t) : t[q] = LF /\ \A r \in p .. q - 1 : t[r] # LF
LineAt(t, p) ==
    LET e == LineEnd(t, p)
        l == SubSeq(t, p, e - 1)
    IN IF e <= Len(t) /\ l # <<>> /\ Last(l) = CR THEN Front(l) ELSE l
RECURSIVE LinesFrom(_, _)
LinesFrom(t, p) == IF p > Len(t) THEN <<>> ELSE <<LineAt(t, p)>> \o LinesFrom(t, LineEnd(t, p) + 1)
Lines(t) == LinesFrom(t, 1)

CommentMark == <<Apostrophe, Slash, Slash>>
IsComment(l) == StartsWith(l, CommentMark)
IsBlank(l) == \A i \in DOMAIN l : White(l[i])

(* the backslashes directly before position q, down to position p *)
RECURSIVE SlashesBefore(_, _, _)
SlashesBefore(l, q, p) == IF q > p /\ l[q - 1] = Backslash THEN 1 + SlashesBefore(l, q - 1, p) ELSE 0
(* the quote that ends the string opened at p, or one past the end: an     *)
(* even number of backslashes are escaped backslashes                      *)
StringEnd(l, p) ==
    LET ends(q) == l[q] = Quote /\ SlashesBefore(l, q, p + 1) % 2 = 0
    IN IF \A q \in p + 1 .. Len(l) : ~ends(q) THEN Len(l) + 1
       ELSE CHOOSE q \in p + 1 .. Len(l) : ends(q) /\ \A r \in p + 1 .. q - 1 : ~ends(r)
WordEnd(l, p) ==
    LET ends(q) == Separator(l[q]) \/ l[q] = Quote
    IN IF \A q \in p .. Len(l) : ~ends(q) THEN Len(l) + 1
       ELSE CHOOSE q \in p .. Len(l) : ends(q) /\ \A r \in p .. q - 1 : ~ends(r)
(* The token at or after p: a string keeps its opening quote only *)
RECURSIVE TokensFrom(_, _)
TokensFrom(l, p) ==
    IF p > Len(l) THEN <<>>
    ELSE IF Separator(l[p]) THEN TokensFrom(l, p + 1)
    ELSE LET e == IF l[p] = Quote THEN StringEnd(l, p) ELSE WordEnd(l, p)
         IN <<SubSeq(l, p, e - 1)>> \o TokensFrom(l, IF l[p] = Quote THEN e + 1 ELSE e)
Tokens(l) == TokensFrom(l, 1)

(* What a token denotes *)
Digit(c, base) ==
    IF c \in 48 .. 57 THEN c - 48
    ELSE IF base = 16 /\ c \in 65 .. 70 THEN c - 55
    ELSE IF base = 16 /\ c \in 97 .. 102 THEN c - 87 ELSE -1
(* the value of a numeral, -1 when it is none, saturating above a byte     *)
RECURSIVE Value(_, _, _)
Value(d, base, acc) ==
    IF d = <<>> THEN acc
    ELSE IF Digit(Head(d), base) < 0 THEN -1
    ELSE Value(Tail(d), base, Min2(1000, acc * base + Digit(Head(d), base)))
Numeral(d, base) == \* a plus sign before the digits is allowed
    LET e == IF d # <<>> /\ Head(d) = 43 THEN Tail(d) ELSE d
    IN IF e = <<>> THEN -1 ELSE LET v == Value(e, base, 0) IN IF v > 255 THEN -1 ELSE v

RECURSIVE Unescape(_)
Unescape(t) ==
    IF Len(t) < 2 THEN t
    ELSE IF t[1] = Backslash /\ t[2] \in {Backslash, Quote} THEN <<t[2]>> \o Unescape(Tail2(t, 2))
    ELSE <<t[1]>> \o Unescape(Tail(t))

Constants == [w \in {<<78, 85, 76>>, <<69, 83, 67>>, <<72, 84>>, <<76, 70>>, <<70, 70>>, <<67, 82>>,
                     <<71, 83>>, <<70, 83>>, <<68, 76, 69>>, <<67, 65, 78>>} |->
    CASE w = <<78, 85, 76>> -> NUL [] w = <<69, 83, 67>> -> ESC [] w = <<72, 84>> -> HT
      [] w = <<76, 70>> -> LF [] w = <<70, 70>> -> FF [] w = <<67, 82>> -> CR [] w = <<71, 83>> -> GS
      [] w = <<70, 83>> -> FS [] w = <<68, 76, 69>> -> DLE [] w = <<67, 65, 78>> -> CAN]

Denotes(w) ==
    IF w[1] = Quote THEN Utf8Of(Unescape(Tail(w)))
    ELSE IF w \in DOMAIN Constants THEN <<Constants[w]>>
    ELSE IF StartsWith(w, <<48, 120>>) THEN LET v == Numeral(Tail2(w, 2), 16) IN IF v < 0 THEN <<>> ELSE <<v>>
    ELSE LET v == Numeral(w, 10) IN IF v < 0 THEN Utf8Of(w) ELSE <<v>>

LineBytes(l) ==
    IF IsComment(l) \/ IsBlank(l) THEN <<>>
    ELSE LET ts == Tokens(l) IN FlattenSeq([i \in DOMAIN ts |-> Denotes(ts[i])])
Read(t) == LET ls == Lines(t) IN FlattenSeq([i \in DOMAIN ls |-> LineBytes(ls[i])])

(* ----------------- 2. the tokenizer, character by character ------------ *)
(* mode: "out" between tokens, "word", "string", "escape" in a string after *)
(* a backslash.  cur: the token so far.                                     *)
TInit == [mode |-> "out", cur |-> <<>>, out |-> <<>>]
TStep(s, c) ==
    CASE s.mode = "string" /\ c = Quote -> [mode |-> "out", cur |-> <<>>, out |-> Append(s.out, s.cur)]
      [] s.mode = "string" -> [s EXCEPT !.mode = IF c = Backslash THEN "escape" ELSE "string", !.cur = Append(@, c)]
      [] s.mode = "escape" -> [s EXCEPT !.mode = "string", !.cur = Append(@, c)]
      [] OTHER ->
         LET done == IF s.mode = "word" THEN Append(s.out, s.cur) ELSE s.out
         IN IF c = Quote THEN [mode |-> "string", cur |-> <<c>>, out |-> done]
            ELSE IF Separator(c) THEN [mode |-> "out", cur |-> <<>>, out |-> done]
            ELSE [s EXCEPT !.mode = "word", !.cur = Append(@, c)]
TFinish(s) == IF s.mode = "out" THEN s.out ELSE Append(s.out, s.cur)

(* ---------------------------- 3. a writer ------------------------------ *)
(* Text is written as strings, what no string can hold as hex; commands as *)
(* a comment with their name and their bytes.                              *)
HexDigit(n) == IF n < 10 THEN 48 + n ELSE 55 + n
Hex(b) == <<48, 120, HexDigit(b \div 16), HexDigit(b % 16)>>
RECURSIVE Decimal(_)
Decimal(n) == IF n < 10 THEN <<48 + n>> ELSE Decimal(n \div 10) \o <<48 + (n % 10)>>
Escaped(c) == IF c \in {Quote, Backslash} THEN <<Backslash, c>> ELSE <<c>>
Quoted(t) == <<Quote>> \o FlattenSeq([i \in DOMAIN t |-> Escaped(t[i])]) \o <<Quote>>
WriteByte(b, as) ==
    IF as = "hex" THEN Hex(b) ELSE IF as = "decimal" THEN Decimal(b)
    ELSE IF b \in 32 .. 126 THEN Quoted(<<b>>) ELSE Hex(b)
WriteBytes(bs, as) == FlattenSeq([i \in DOMAIN bs |-> WriteByte(bs[i], as) \o <<Space>>])
Write(cmd, name, as) ==
    (IF cmd.k = "Text" THEN <<>> ELSE CommentMark \o <<Space>> \o name \o <<LF>>)
    \o WriteBytes(IF cmd.k = "Unknown" THEN cmd.bd ELSE cmd.bc \o cmd.bd, as) \o <<LF>>

(* ---------------- what a written job says, line by line ---------------- *)
(* The layout is free.  What counts is the order of what is said: the names *)
(* in the comments and the bytes.                                           *)
Trimmed(t) ==
    LET ink == {i \in DOMAIN t : ~White(t[i])}
    IN IF ink = {} THEN <<>>
       ELSE SubSeq(t, CHOOSE i \in ink : \A j \in ink : i <= j, CHOOSE i \in ink : \A j \in ink : i >= j)
Says(l) ==
    IF IsComment(l) THEN << <<-1>> \o Trimmed(Tail2(l, 3)) >>
    ELSE LET b == LineBytes(l) IN [i \in DOMAIN b |-> <<b[i]>>]
CmdBytes(cmd) == IF cmd.k = "Unknown" THEN cmd.bd ELSE cmd.bc \o cmd.bd
CmdSays(cmd, name) ==
    LET b == CmdBytes(cmd)
        s == [i \in DOMAIN b |-> <<b[i]>>]
    IN IF cmd.k = "Text" THEN s ELSE << <<-1>> \o name >> \o s
===============================================================================
