------------------------------- MODULE Canvas --------------------------------
(***************************************************************************)
(* The canvas of the image output: a picture of fixed width that holds the *)
(* dots in p, row by row (p[y * w + x + 1]).  A dot is a colour, a 24 bit  *)
(* number; what is drawn may also be Clear, which changes nothing.  A      *)
(* canvas that grows gets longer when something is drawn below its end; a  *)
(* canvas that does not keeps its height.                                  *)
(***************************************************************************)
EXTENDS Bytes

White == 16777215   Black == 0   Clear == -1

RedOf(c) == c \div 65536   GreenOf(c) == (c \div 256) % 256   BlueOf(c) == c % 256
Rgb(r, g, b) == (65536 * r) + (256 * g) + b
(* a part of ink over a part of what is there: the product, rounded *)
Over(a, b) == ((2 * a * b) + 255) \div 510
(* what a dot becomes: ink multiplies ("multiply") or covers *)
Ink(old, new, mul) ==
    IF new = Clear THEN old
    ELSE IF ~mul \/ old = White THEN new
    ELSE IF new = White THEN old
    ELSE Rgb(Over(RedOf(old), RedOf(new)), Over(GreenOf(old), GreenOf(new)), Over(BlueOf(old), BlueOf(new)))

Blank(w, h, grow) == [w |-> w, h |-> IF w = 0 THEN 0 ELSE h, p |-> Rep(White, w * h), grow |-> grow]
Dot(c, x, y) == c.p[(y * c.w) + x + 1]
(* the canvas of w x h dots with dot at(x, y); without width there are no rows *)
Picture(c, w, h, at(_, _)) ==
    [c EXCEPT !.w = w, !.h = IF w = 0 THEN 0 ELSE h, !.p = [i \in 1 .. w * h |-> at((i - 1) % w, (i - 1) \div w)]]

Taller(c, h) ==
    IF h <= c.h \/ c.w = 0 THEN c
    ELSE [c EXCEPT !.h = h, !.p = @ \o Rep(White, c.w * (h - c.h))]
(* margins on both sides *)
Wider(c, w) ==
    IF w < c.w THEN c
    ELSE LET left == (w - c.w) \div 2
         IN Picture(c, w, c.h, LAMBDA x, y : IF x \in left .. left + c.w - 1 THEN Dot(c, x - left, y) ELSE White)
SetPaper(c, w) == [c EXCEPT !.w = w, !.h = 0, !.p = <<>>]

(* Nothing can be drawn right of the canvas, nor below it when it does not grow *)
Refused(c, x, y) == x >= c.w \/ (y >= c.h /\ ~c.grow)
Put(c, x, y, w, h, px, mul) ==
    IF Refused(c, x, y) THEN c
    ELSE LET t == IF c.grow THEN Taller(c, y + h) ELSE c
         IN Picture(t, t.w, t.h, LAMBDA i, j :
                IF i \in x .. x + w - 1 /\ j \in y .. y + h - 1
                THEN Ink(Dot(t, i, j), px[((j - y) * w) + (i - x) + 1], mul) ELSE Dot(t, i, j))
Rect(c, x, y, w, h, ink) == Put(c, x, y, w, h, Rep(ink, w * h), TRUE)

(* a quarter turn, clockwise *)
Turn90(c)  == Picture(c, c.h, c.w, LAMBDA x, y : Dot(c, y, c.h - 1 - x))
Turn180(c) == Picture(c, c.w, c.h, LAMBDA x, y : Dot(c, c.w - 1 - x, c.h - 1 - y))
Turn270(c) == Picture(c, c.h, c.w, LAMBDA x, y : Dot(c, c.w - 1 - y, x))
RECURSIVE Turn(_, _)
Turn(c, quarters) == IF quarters % 4 = 0 THEN c ELSE Turn(Turn90(c), (quarters % 4) - 1)

(* upside down: a rectangle that is on the canvas is mirrored in place *)
Fits(c, x, y, w, h) == x + w <= c.w /\ (c.grow \/ y + h <= c.h)
Flip(c, x, y, w, h) ==
    IF ~Fits(c, x, y, w, h) THEN c
    ELSE LET t == Taller(c, y + h)
         IN Picture(t, t.w, t.h, LAMBDA i, j :
                IF i \in x .. x + w - 1 /\ j \in y .. y + h - 1 THEN Dot(t, i, (2 * y) + h - 1 - j) ELSE Dot(t, i, j))

(* A page turned by q quarters grows to w x h so that nothing moves in the *)
(* standard direction                                                      *)
GrowPage(c, w, h, q) ==
    LET nw == Max2(w, c.w)  nh == Max2(h, c.h)
        left == IF q \in {1, 2} THEN nw - c.w ELSE 0
        top == IF q \in {2, 3} THEN nh - c.h ELSE 0
    IN Picture(c, nw, nh, LAMBDA x, y :
           IF x \in left .. left + c.w - 1 /\ y \in top .. top + c.h - 1 THEN Dot(c, x - left, y - top) ELSE White)

(* The dots alone, for comparison *)
Same(a, b) == a.w = b.w /\ a.h = b.h /\ a.p = b.p
==============================================================================
