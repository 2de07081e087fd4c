------------------------------- MODULE Layout --------------------------------
(***************************************************************************)
(* How text becomes lines.  A span is a piece of text with the style that  *)
(* was in force when it was received; spans are broken into words, words   *)
(* are placed on lines, lines are justified.                               *)
(***************************************************************************)
EXTENDS Style

Whitespace == (9 .. 13) \cup {32, 133, 160, 5760} \cup (8192 .. 8202) \cup {8232, 8233, 8239, 8287, 12288}

RulePx(c, n) == (n * c.g.dpi) \div 96        \* thickness of a rule of n points
Span(c, text) ==
    [t |-> text, f |-> c.t.f, cw |-> c.t.cw * c.t.wm, ch |-> c.t.ch * c.t.hm,
     bw |-> c.t.cw, bh |-> c.t.ch, b |-> c.t.b, i |-> c.t.i,
     u |-> RulePx(c, c.t.u), s |-> RulePx(c, c.t.s), sw |-> c.t.wm, sh |-> c.t.hm,
     inv |-> c.t.inv, ud |-> c.t.ud, j |-> c.t.j, bg |-> c.t.bg, fg |-> c.t.fg, d |-> <<>>]
BarcodeSpan(c, text) == [Span(c, text) EXCEPT !.f = c.b.f]
SpanWidth(s) == Len(s.t) * s.cw

(* A word ends with the white space that follows it *)
Words(s) ==
    LET step(a, x) == IF x \in Whitespace
                      THEN [done |-> Append(a.done, [s EXCEPT !.t = Append(a.cur, x)]), cur |-> <<>>]
                      ELSE [a EXCEPT !.cur = Append(@, x)]
        a == FoldLeft(step, [done |-> <<>>, cur |-> <<>>], s.t)
    IN IF a.cur = <<>> THEN a.done ELSE Append(a.done, [s EXCEPT !.t = a.cur])

(* The pieces of a word that is wider than a line: the first takes what is *)
(* left of the line, perhaps nothing                                       *)
RECURSIVE Chunks(_, _)
Chunks(t, n) == IF t = <<>> THEN <<>> ELSE <<Take(t, n)>> \o Chunks(Tail2(t, n), n)
Pieces(t, first, n) == <<Take(t, first)>> \o Chunks(Tail2(t, first), n)

Place(c, w) == [w EXCEPT !.d = <<X(c), Y(c), SpanWidth(w), w.ch>>]
MaxOf(seq, f(_), lo) == FoldLeft(LAMBDA a, x : Max2(a, f(x)), lo, seq)
LineHeight(line) == MaxOf(line, LAMBDA s : s.ch, 0)

(* a: [c, lines, cur] - the context, the lines closed so far, the open line *)
CloseLine(a) == [c |-> NewLineOf(a.c, LineHeight(a.cur)), lines |-> Append(a.lines, a.cur), cur |-> <<>>]
AddWord(a, w) == [a EXCEPT !.cur = Append(@, Place(a.c, w)), !.c = MoveX(a.c, SpanWidth(w))]
AddPieces(a, w) ==
    LET ps == Pieces(w.t, Avail(a.c) \div w.cw, Max2(1, Width(a.c) \div w.cw))
        step(b, k) == LET piece == [w EXCEPT !.t = ps[k]]
                      IN IF k = Len(ps) THEN AddWord(b, piece)
                         ELSE CloseLine([b EXCEPT !.cur = Append(@, Place(b.c, piece))])
    IN FoldLeft(step, a, [k \in DOMAIN ps |-> k])
PlaceWord(a, w) ==
    IF w.t = <<LF>> THEN CloseLine(a)
    ELSE IF w.t = <<HT>> THEN [a EXCEPT !.c = TabX(a.c, w.cw)]
    ELSE IF SpanWidth(w) <= Avail(a.c) THEN AddWord(a, w)
    ELSE IF SpanWidth(w) > Width(a.c) THEN AddPieces(a, w)
    ELSE AddWord(CloseLine(a), w)

LayoutOf(c, spans) ==
    LET words == FlattenSeq([k \in DOMAIN spans |-> Words(spans[k])])
        a == FoldLeft(PlaceWord, [c |-> c, lines |-> <<>>, cur |-> <<>>], words)
    IN [c |-> a.c, lines |-> SelectSeq(Append(a.lines, a.cur), LAMBDA l : l # <<>>)]

LineWidth(line) == FoldLeft(LAMBDA n, s : n + SpanWidth(s), 0, line)
(* How far a line is moved to the right by its justification *)
LineOffset(c, line) ==
    LET w == LineWidth(line)  free == Sub0(Width(c), w)
    IN CASE line[1].j = "R" -> free [] line[1].j = "C" -> free \div 2 [] OTHER -> 0
============================================================================
