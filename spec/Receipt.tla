------------------------------- MODULE Receipt -------------------------------
(***************************************************************************)
(* The picture of a receipt: what each event draws, and where.             *)
(*                                                                         *)
(* s.paper is the paper, s.page the page being composed, s.out the pictures *)
(* of the jobs that have ended.  What lies outside the paper (or page) it    *)
(* is drawn on is complained about: off are the complaints about things on  *)
(* the paper, poff about those on the page, err those reported so far.      *)
(*                                                                         *)
(* Letters are pictures the specification does not make itself: Glyph[k],  *)
(* for k = <<letter, font, cell, bold, italic, magnification>>, gives how  *)
(* much of every dot of its cell is ink (0 to 255).  A letter that is not  *)
(* in the table fills its cell with Unknown ink.                           *)
(***************************************************************************)
EXTENDS Renderer
CONSTANT Glyph
Pic == INSTANCE Picture

Desk == [paper |-> Pic!Empty(0, 0, TRUE), page |-> Pic!Empty(0, 0, FALSE), out |-> <<>>,
         off |-> <<>>, poff |-> <<>>, err |-> <<>>]

(* draw g on the canvas a.c; where it is outside, a.bad says so *)
Lay(a, x, y, g, mul) ==
    [c |-> Pic!Draw(a.c, x, y, g, mul),
     bad |-> IF g.w > 0 /\ g.h > 0 /\ Pic!Refused(a.c, x, y) THEN Append(a.bad, <<x, y, a.c.w, a.c.h>>) ELSE a.bad]

(* --------------------------------- letters ----------------------------- *)
NoInk(ch) == ch \in 0 .. 31 \cup {127}
Mix(bg, fg, a) ==
    LET part(f(_)) == ((f(fg) * a) + (f(bg) * (255 - a)) + 127) \div 255
    IN Pic!Rgb(part(Pic!RedOf), part(Pic!GreenOf), part(Pic!BlueOf))
Letter(sp, ch) ==
    LET w == sp.cw \div sp.bw  h == sp.ch \div sp.bh
        k == <<ch, sp.f, sp.bw, sp.b, sp.i, Max2(w, h)>>
    IN IF k \notin DOMAIN Glyph THEN Pic!Solid(sp.cw, sp.ch, Pic!Unknown)
       ELSE Pic!Recoloured(Pic!Sampled(Glyph[k], sp.cw, sp.ch), LAMBDA a : Mix(sp.bg, sp.fg, a))

(* How far below the top of its cell the base of a letter h dots high is *)
BaseLine(f, h) == CASE f = "B" -> (h * 508032) \div 1000000
                    [] f = "C" -> (h * 317520) \div 1000000
                    [] OTHER -> (h * 635040) \div 1000000
(* lower letters stand on the base of the highest of the line *)
Drop(sp, mh) == IF mh = sp.ch THEN 0 ELSE BaseLine(sp.f, mh - sp.ch)

DrawSpan(start, sp, off, mh) ==
    LET x == sp.d[1] + off  y == sp.d[2] + Drop(sp, mh)  w == sp.d[3]
        one(a, k) == IF NoInk(sp.t[k]) THEN a ELSE Lay(a, x + ((k - 1) * sp.cw), y, Letter(sp, sp.t[k]), TRUE)
        text == FoldLeft(one, start, [k \in DOMAIN sp.t |-> k])
        line == IF sp.u = 0 THEN text ELSE Lay(text, x, y + 3 + BaseLine(sp.f, sp.ch), Pic!Solid(w, 1, sp.fg), TRUE)
        struck == IF sp.s = 0 THEN line
                  ELSE Lay(line, x, y + ((2 * sp.ch) \div 5), Pic!Solid(w, sp.s, sp.fg), TRUE)
    IN IF sp.ud THEN [struck EXCEPT !.c = Pic!Mirror(@, x, y, w, sp.ch)] ELSE struck

(* codes are in the colour of the text, and not inverted with it *)
CodeInk(c) == IF c.t.inv THEN c.t.bg ELSE c.t.fg

(* --------------------------------- events ------------------------------ *)
OnPaper(s, draw(_)) ==
    LET a == draw([c |-> s.paper, bad |-> s.off]) IN [s EXCEPT !.paper = a.c, !.off = a.bad]
OnPage(s, draw(_)) ==
    LET a == draw([c |-> s.page, bad |-> s.poff]) IN [s EXCEPT !.page = a.c, !.poff = a.bad]
OnCanvasOf(s, e, draw(_)) == IF e.c.p.en THEN OnPage(s, draw) ELSE OnPaper(s, draw)
(* a picture without width has its height all the same *)
ImagePicture(e) == [Pic!OfDots(e.w, e.h, LAMBDA x, y : e.px[(y * e.w) + x + 1] - 1) EXCEPT !.h = e.h]
Upright(p) == QuarterTurns(p.d)
Act(s, e) ==
    CASE e.e = "begin" ->
           [s EXCEPT !.paper = Pic!Empty(PrintWidth, 0, TRUE), !.page = Pic!Empty(0, 0, FALSE)]
      [] e.e = "text" ->
           OnCanvasOf(s, e, LAMBDA b : FoldLeft(LAMBDA a, sp : DrawSpan(a, sp, e.off, e.mh), b, e.s))
      [] e.e = "image" -> OnCanvasOf(s, e, LAMBDA b : Lay(b, e.x, e.y, ImagePicture(e), TRUE))
      [] e.e = "gfx" ->
           OnCanvasOf(s, e, LAMBDA b : FoldLeft(LAMBDA a, q : Lay(a, q[1], q[2], Pic!Solid(q[3], q[4], CodeInk(e.c)), TRUE), b, e.r))
      [] e.e = "page_begin" -> [s EXCEPT !.page = Pic!EmptyOf(@, 0)]
      [] e.e = "area" ->
           [s EXCEPT !.page = Pic!GrowPaper(Pic!Turned(@, e.rot \div 90), e.w, e.h, QuarterTurns(e.c.p.d))]
      [] e.e = "render_page" ->     \* turned upright and back (a page without dots has lost its width after a quarter)
           LET q == QuarterTurns(e.c.p.d)  up == Pic!Turned(s.page, 4 - q)
           IN [OnPaper(s, LAMBDA b : Lay(b, e.c.g.x, e.c.g.y, up, FALSE))
                 EXCEPT !.page = IF q % 2 = 1 /\ (up.w = 0 \/ up.h = 0) THEN Pic!EmptyOf(@, 0) ELSE @]
      [] e.e = "end" ->
           [s EXCEPT !.out = Append(@, Pic!MakeTaller(Pic!MakeWider(s.paper, PaperWidth), e.c.g.y)),
                     !.paper = Pic!Empty(0, 0, TRUE),
                     !.err = @ \o s.off \o s.poff, !.off = <<>>, !.poff = <<>>]
      [] OTHER -> s
Show(s, events) == FoldLeft(Act, s, events)
==============================================================================
