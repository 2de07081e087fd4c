------------------------------- MODULE Parser ------------------------------
(***************************************************************************)
(* How a byte stream is cut into commands.                                 *)
(*                                                                         *)
(* Part 1 gives the operand formats and what a recognised command looks    *)
(* like.  Part 2 is the parser as a machine that sees one byte at a time   *)
(* (the shape of the implementation).  Part 3 says declaratively what the  *)
(* item at a position of a stream is.  MC_Parser checks that 2 and 3 agree *)
(* on every short stream over alphabets chosen to reach every rule, and    *)
(* that no byte is lost, duplicated or reordered.                          *)
(***************************************************************************)
EXTENDS CmdTable

(* ------------------------ 1. operands and commands --------------------- *)
Fixed == [None |-> 0, One |-> 1, Two |-> 2, Three |-> 3, Four |-> 4, Eight |-> 8]
IsFixed == [f \in {Table[i].f : i \in DOMAIN Table} |-> f \in DOMAIN Fixed]
HeaderLen == [BitImage |-> 3, Raster |-> 5, Sub |-> 4, SubLarge |-> 6, Effects |-> 2]

(* The payload length a complete header declares *)
BitImageHeight(h) == IF h[1] \in {32, 33} THEN 24 ELSE 8
Declared(f, h) ==
    CASE f = "BitImage" -> (U16(h, 1) * BitImageHeight(h)) \div 8
      [] f = "Raster"   -> Mul(U16(h, 1), U16(h, 3))
      [] f = "Sub"      -> Sub0(U16(h, 0), 2)         \* the length counts m and fn
      [] f = "SubLarge" -> Sub0(U32(h, 0), 2)
      [] f = "Effects"  -> U16(h, 0)

NulBarcode(m)    == m <= 6
LengthBarcode(m) == m \in 65 .. 79

(* Does a command that already has the operand bytes r take one more?      *)
(* (the byte itself never matters)                                         *)
Accepts(f, r) ==
    IF IsFixed[f] THEN Len(r) < Fixed[f]
    ELSE IF f = "Cut" THEN Len(r) = 0 \/ (Len(r) = 1 /\ r[1] \notin {0, 48, 1, 49})
    ELSE IF f = "Barcode" THEN
            \/ Len(r) = 0
            \/ NulBarcode(r[1]) /\ ~(Len(r) > 1 /\ Last(r) = NUL)
            \/ LengthBarcode(r[1]) /\ (Len(r) = 1 \/ Len(r) < 2 + r[2])
    ELSE \/ Len(r) < HeaderLen[f]
         \/ Len(r) < HeaderLen[f] + Declared(f, r)

(* The effect kind of a function of GS ( k, "" when there is none *)
Fn2DKind(m, fn) ==
    IF m \notin 48 .. 54 THEN ""
    ELSE IF fn = 81 THEN "Graphics"
    ELSE IF fn = 82 THEN "Control"
    ELSE IF fn = 80 THEN "Context"
    ELSE IF \/ m = 48 /\ fn \in {65, 66, 67, 69, 70}
            \/ m = 49 /\ fn \in {65, 67, 69}
            \/ m = 50 /\ fn = 65
            \/ m = 51 /\ fn \in {67, 71}
            \/ m = 52 /\ fn \in {67, 71, 72}
            \/ m = 53 /\ fn \in {66, 67, 69}
            \/ m = 54 /\ fn \in {66, 67}
         THEN "Context" ELSE ""

(* The effect kind of a function of GS ( L and GS 8 L *)
FnGfxKind(fn) ==
    IF fn \in {2, 50, 69, 85} THEN "Graphics"
    ELSE IF fn \in {0, 48, 4, 52, 64, 80} THEN "Control"
    ELSE IF fn \in {1, 49, 65, 66, 67, 68, 81, 82, 83, 84, 112, 113} THEN "Context"
    ELSE ""

QrOpener == <<GS, 40, 107>>
RRTOpener == <<GS, 40, 72>>

(* A command as an observer of the parser sees it: its kind, its opening   *)
(* bytes c, its data d, and the bytes it is written back with (bc, bd).    *)
Cmd(k, c, d, bc, bd) == [k |-> k, c |-> c, d |-> d, bc |-> bc, bd |-> bd]
Simple(k, c, d) == Cmd(k, c, d, c, d)
BeginCmd == Simple("Control", <<>>, <<>>)
EndCmd   == Simple("Control", <<>>, <<>>)
TextCmd(d) == Simple("Text", <<>>, d)
UnknownCmd(d) == Simple("Unknown", <<DLE, ESC, FS, GS>>, d)

(* The command that command i makes of operand bytes r  *)
Emit(i, r) ==
    LET row == Table[i]
        o == row.o  k == row.k  f == row.f
        h == IF f \in DOMAIN HeaderLen THEN HeaderLen[f] ELSE 0
        hdr == SubSeq(r, 1, h)
        pay == SubSeq(r, h + 1, Len(r))
    IN IF IsFixed[f] \/ f \in {"Cut", "Effects"} THEN <<Simple(k, o, r)>>
       ELSE IF f = "Barcode" THEN
            IF Len(r) = 0 THEN <<Simple(k, o, <<>>)>>
            ELSE IF NulBarcode(r[1]) THEN
                 LET t == Tail(r)
                     d == IF t /= <<>> /\ Last(t) = NUL THEN Front(t) ELSE t
                 IN <<Cmd(k, o, d, o \o <<r[1]>>, d \o <<NUL>>)>>
            ELSE IF LengthBarcode(r[1]) THEN
                 LET d == Tail2(r, 2) IN <<Cmd(k, o, d, o \o Take(r, 2), d)>>
            ELSE <<Cmd(k, o, <<>>, o \o r, <<>>)>>
       ELSE IF f \in {"BitImage", "Raster"} THEN
            IF Len(r) < h THEN <<Simple(k, o, r)>> ELSE <<Cmd(k, o, pay, o, r)>>
       ELSE IF k = "Subcommand" THEN
            IF Len(r) < h THEN <<UnknownCmd(o \o r)>>
            ELSE LET m == hdr[h - 1]  fn == hdr[h]
                     sk == IF o = QrOpener THEN Fn2DKind(m, fn) ELSE FnGfxKind(fn)
                 IN IF sk = "" THEN <<UnknownCmd(o \o r)>> ELSE <<Simple(sk, o \o hdr, pay)>>
       ELSE \* GS ( H has no functions: it is one command whatever its header
            IF Len(r) < h THEN <<Simple(k, o, r)>> ELSE <<Cmd(k, o, pay, o \o hdr, pay)>>

(* ----------------------- 2. the byte by byte machine ------------------- *)
(* cur: what is being collected.  i > 0 a command of the table with operand *)
(* bytes r; i = 0 an unknown sequence; i = -1 text; i = -2 nothing yet.     *)
(* buf: the bytes of an opener seen so far.                                *)
NoCur == [i |-> -2, r |-> <<>>]
IsDefaultRun(c) == c.i \in {0, -1}
EmitCur(c) ==
    IF c.i = -2 THEN <<>> ELSE IF c.i = -1 THEN <<TextCmd(c.r)>>
    ELSE IF c.i = 0 THEN <<UnknownCmd(c.r)>> ELSE Emit(c.i, c.r)

PInit == [cur |-> NoCur, buf |-> <<>>, out |-> <<BeginCmd>>]

RECURSIVE PStep(_, _)
PStep(p, b) ==
    IF p.buf = <<>> /\ p.cur.i > 0 /\ Accepts(Table[p.cur.i].f, p.cur.r)
    THEN [p EXCEPT !.cur.r = Append(@, b)]
    ELSE LET buf == Append(p.buf, b) IN
         IF buf \in Openers
         THEN [cur |-> [i |-> IdxOf[buf], r |-> <<>>], buf |-> <<>>,
               out |-> p.out \o EmitCur(p.cur)]
         ELSE IF buf \in PartOpeners THEN [p EXCEPT !.buf = buf]
         ELSE IF buf[1] \in UnknownLead
         THEN [cur |-> [i |-> 0, r |-> buf], buf |-> <<>>, out |-> p.out \o EmitCur(p.cur)]
         ELSE IF Len(buf) > 1      \* an opener that is also text: the last byte is looked at again
         THEN PStep([cur |-> [i |-> -1, r |-> Front(buf)], buf |-> <<>>,
                     out |-> p.out \o EmitCur(p.cur)], b)
         ELSE IF IsDefaultRun(p.cur)
         THEN [p EXCEPT !.cur.r = Append(@, b)]
         ELSE [cur |-> [i |-> -1, r |-> <<b>>], buf |-> <<>>, out |-> p.out \o EmitCur(p.cur)]

PFinish(p) ==
    p.out \o EmitCur(p.cur)
    \o (IF p.buf = <<>> THEN <<>> ELSE EmitCur([i |-> IF p.buf[1] \in UnknownLead THEN 0 ELSE -1, r |-> p.buf]))
    \o <<EndCmd>>

RECURSIVE PRun(_, _)
PRun(p, s) == IF s = <<>> THEN p ELSE PRun(PStep(p, Head(s)), Tail(s))
MachineFrames(s) == PFinish(PRun(PInit, s))

(* ------------------------- 3. declarative framing ---------------------- *)
(* How many bytes of s from position p on are operands of format f         *)
FirstNul(s, p) == \* position of the first NUL at or after p, else the end
    IF \A q \in p .. Len(s) : s[q] # NUL THEN Len(s)
    ELSE CHOOSE q \in p .. Len(s) : s[q] = NUL /\ \A t \in p .. q - 1 : s[t] # NUL
Extent(f, s, p) ==
    LET n == Len(s) - p + 1
        h == IF f \in DOMAIN HeaderLen THEN HeaderLen[f] ELSE 0
    IN IF n <= 0 THEN 0
       ELSE IF IsFixed[f] THEN Min2(n, Fixed[f])
       ELSE IF f = "Cut" THEN (IF s[p] \in {0, 48, 1, 49} THEN 1 ELSE Min2(n, 2))
       ELSE IF f = "Barcode" THEN
            IF NulBarcode(s[p]) THEN FirstNul(s, p + 1) - p + 1
            ELSE IF LengthBarcode(s[p]) THEN (IF n = 1 THEN 1 ELSE Min2(n, 2 + s[p + 1]))
            ELSE 1
       ELSE IF n < h THEN n
       ELSE Min2(n, h + Declared(f, SubSeq(s, p, p + h - 1)))

(* The opener recognised at p: 0 none, -1 the stream ends inside one *)
OpenerAt(s, p) ==
    LET w1 == SubSeq(s, p, p)  w2 == SubSeq(s, p, p + 1)  w3 == SubSeq(s, p, p + 2)
    IN IF w1 \in Openers THEN IdxOf[w1]
       ELSE IF w1 \notin PartOpeners THEN 0
       ELSE IF p + 1 > Len(s) THEN -1
       ELSE IF w2 \in Openers THEN IdxOf[w2]
       ELSE IF w2 \notin PartOpeners THEN 0
       ELSE IF p + 2 > Len(s) THEN -1
       ELSE IF w3 \in Openers THEN IdxOf[w3] ELSE 0

(* end of the run of plain bytes that starts at p *)
PlainEnd(s, p) ==
    IF \A q \in p .. Len(s) : IsPlain[s[q]] THEN Len(s) + 1
    ELSE CHOOSE q \in p .. Len(s) : ~IsPlain[s[q]] /\ \A t \in p .. q - 1 : IsPlain[s[t]]

(* The item that starts at p: the commands it makes and where the next one  *)
(* starts.  An item is a command with its operands, a run of text, an      *)
(* unknown sequence with the text that follows it.  An opener that the      *)
(* stream ends in matched no command.                                      *)
ItemAt(s, p) ==
    LET i == OpenerAt(s, p) IN
    IF i = -1 THEN
         LET d == SubSeq(s, p, Len(s)) IN
         [cmds |-> <<IF s[p] \in UnknownLead THEN UnknownCmd(d) ELSE TextCmd(d)>>, next |-> Len(s) + 1,
          what |-> IF s[p] \in UnknownLead THEN "unknown" ELSE "text",
          i |-> IF s[p] \in UnknownLead THEN 0 ELSE -1, r |-> d]
    ELSE IF i > 0 THEN
         LET q == p + Len(Table[i].o)
             e == q + Extent(Table[i].f, s, q)
             r == SubSeq(s, q, e - 1)
         IN [cmds |-> Emit(i, r), next |-> e, what |-> "command", i |-> i, r |-> r]
    ELSE LET lead == IF s[p] \in UnknownLead
                     THEN \* the bytes up to and including the one that fits nothing
                          IF SubSeq(s, p, p) \notin PartOpeners THEN 1
                          ELSE IF SubSeq(s, p, p + 1) \notin PartOpeners THEN 2 ELSE 3
                     ELSE 1
             e == PlainEnd(s, p + lead)
             d == SubSeq(s, p, e - 1)
         IN [cmds |-> <<IF s[p] \in UnknownLead THEN UnknownCmd(d) ELSE TextCmd(d)>>,
             next |-> e, what |-> IF s[p] \in UnknownLead THEN "unknown" ELSE "text",
             i |-> IF s[p] \in UnknownLead THEN 0 ELSE -1, r |-> d]

RECURSIVE FramesFrom(_, _)
FramesFrom(s, p) ==
    IF p > Len(s) THEN <<>>
    ELSE LET it == ItemAt(s, p) IN it.cmds \o FramesFrom(s, it.next)
Frames(s) == <<BeginCmd>> \o FramesFrom(s, 1) \o <<EndCmd>>

(* ------------------------------ properties ----------------------------- *)
RECURSIVE Cat(_)
Cat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Cat(Tail(ss))

(* The stream, cut into the spans of its items *)
RECURSIVE SpansFrom(_, _)
SpansFrom(s, p) ==
    IF p > Len(s) THEN <<>>
    ELSE LET it == ItemAt(s, p) IN <<SubSeq(s, p, it.next - 1)>> \o SpansFrom(s, it.next)
============================================================================
