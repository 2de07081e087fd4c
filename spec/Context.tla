------------------------------- MODULE Context -------------------------------
(***************************************************************************)
(* The state of the printer: g position and paper, t text style, b barcode *)
(* settings, q two dimensional code settings, p page mode, s stored        *)
(* graphics - and the arithmetic of the print position.                    *)
(*                                                                         *)
(* Lengths are in dots.  Areas are <<x, y, w, h>>.                         *)
(***************************************************************************)
EXTENDS Images

(* ------------------------------ power on ------------------------------- *)
PaperWidth == 649
PrintWidth == 609
StartY == 60
DefaultG == [x |-> 0, y |-> StartY, w |-> PrintWidth, h |-> 0, vm |-> 1, hm |-> 1, dpi |-> 203,
             pa |-> <<20, 20, PaperWidth, 0>>]
DefaultT == [cw |-> 12, ch |-> 24, cs |-> 0, ct |-> 0, j |-> "L", f |-> "A", b |-> FALSE,
             i |-> FALSE, u |-> 0, s |-> 0, inv |-> FALSE, wm |-> 1, hm |-> 1, ud |-> FALSE,
             ls |-> 24, fg |-> Black, bg |-> Paper, sm |-> FALSE, sh |-> FALSE, shc |-> Black,
             tabs |-> Rep(8, 32)]
DefaultB == [hri |-> "N", w |-> 3, h |-> 40, f |-> "A"]
DefaultQ == [sym |-> <<>>, pts |-> <<>>, model |-> 1, ec |-> "L", size |-> 3, pdf |-> Rep(0, 5),
             pdft |-> FALSE, maxi |-> 0, gs1w |-> 0, gs1m |-> 0, compw |-> 0, compm |-> 0,
             compf |-> "A", aztec |-> Rep(0, 4), dm |-> Rep(0, 4)]
DefaultP == [en |-> FALSE, la |-> Rep(0, 4), ra |-> Rep(0, 4), pa |-> Rep(0, 4),
             d |-> "L2R", pd |-> "L2R"]
NoStore == [k \in {} |-> <<>>]
PowerOn == [g |-> DefaultG, t |-> DefaultT, b |-> DefaultB, q |-> DefaultQ, p |-> DefaultP,
            s |-> [st |-> NoStore, bf |-> <<>>]]

(* ESC @: everything is as after power on, but the paper does not move and *)
(* what is stored in non volatile memory stays                             *)
KeepNv(st) == [k \in {x \in DOMAIN st : x[1] = "D"} |-> st[k]]
Reset(c) == [PowerOn EXCEPT !.g.y = c.g.y, !.s.st = KeepNv(c.s.st)]

(* ---------------------------- print position --------------------------- *)
X(c) == IF c.p.en THEN c.p.ra[1] ELSE c.g.x
Y(c) == IF c.p.en THEN c.p.ra[2] ELSE c.g.y
BaseX(c) == IF c.p.en THEN c.p.pa[1] ELSE 0
BaseY(c) == IF c.p.en THEN c.p.pa[2] ELSE 0
Width(c) == IF c.p.en THEN c.p.ra[3] ELSE c.g.w
(* what is left of the line from the print position on *)
Avail(c) == Sub0(Width(c), Sub0(X(c), BaseX(c)))

PutX(c, x) == IF c.p.en THEN [c EXCEPT !.p.ra[1] = x] ELSE [c EXCEPT !.g.x = x]
PutY(c, y) == IF c.p.en THEN [c EXCEPT !.p.ra[2] = y] ELSE [c EXCEPT !.g.y = y]
(* relative to the start of the line and the top of the area *)
SetX(c, x) == PutX(c, BaseX(c) + x)
SetY(c, y) == PutY(c, BaseY(c) + y)
MoveX(c, n) == PutX(c, X(c) + n)
MoveY(c, n) == PutY(c, Y(c) + n)
ResetX(c) == PutX(c, BaseX(c))

NewLine(c, n) == MoveY(ResetX(c), c.t.ls * n)
NewLineOf(c, h) == MoveY(ResetX(c), Max2(c.t.ls, h))     \* a line h dots high
Feed(c, n) == ResetX(MoveY(c, n))
(* back up by n lines, not beyond the top *)
ReverseLines(c, n) == SetY(ResetX(c), Sub0(Sub0(Y(c), BaseY(c)), c.t.ls * n))

(* Where something w dots wide starts under the current justification *)
JustifyAt(c, w) ==
    IF w > Width(c) THEN 0
    ELSE CASE c.t.j = "C" -> (Width(c) - w) \div 2
           [] c.t.j = "R" -> Width(c) - w
           [] OTHER -> 0

(* Division that drops the fraction, as for motion units *)
TruncDiv(a, b) == IF a >= 0 THEN a \div b ELSE -((-a) \div b)

(* ESC $ and GS $: positions count in motion units; on a page they are     *)
(* taken along the print direction                                         *)
PlaceX(c, n) ==
    LET x == n \div c.g.hm  p == c.p IN
    IF ~p.en THEN [c EXCEPT !.g.x = x]
    ELSE CASE p.d = "L2R" -> PutX(c, p.pa[1] + x)
           [] p.d = "R2L" -> PutX(c, Sub0(p.pa[1] + p.ra[3], x))
           [] p.d = "T2B" -> PutY(c, Sub0(p.ra[4], x))
           [] p.d = "B2T" -> PutY(c, p.pa[2] + x)
PlaceY(c, n) ==     \* page mode only
    LET y == n \div c.g.vm  p == c.p IN
    IF ~p.en THEN c
    ELSE CASE p.d = "L2R" -> PutY(c, p.pa[2] + y)
           [] p.d = "R2L" -> PutY(c, p.pa[2] + Sub0(p.ra[4], y))
           [] p.d = "T2B" -> PutX(c, p.pa[1] + y)
           [] p.d = "B2T" -> PutX(c, p.pa[1] + Sub0(p.ra[3], y))
(* GS \: n is signed *)
ShiftY(c, n) ==
    IF ~c.p.en THEN c ELSE PutY(c, Max2(0, Y(c) + TruncDiv(n, c.g.vm)))

(* HT: to the first tab stop right of the print position.  Stops lie cw dots *)
(* wide columns apart, the first at the left end of the line.               *)
TabX(c, cw) ==
    LET RECURSIVE go(_, _)
        go(k, pos) == IF k > Len(c.t.tabs) THEN c
                      ELSE LET stop == pos + c.t.tabs[k] * cw
                           IN IF stop > Sub0(X(c), BaseX(c)) THEN SetX(c, stop) ELSE go(k + 1, stop)
    IN go(1, 0)

(* -------------------------------- page mode ---------------------------- *)
Turned(d) == d \in {"T2B", "B2T"}
QuarterTurns(d) == CASE d = "L2R" -> 0 [] d = "B2T" -> 1 [] d = "R2L" -> 2 [] d = "T2B" -> 3
DirectionOf(n) ==
    CASE n \in {1, 49} -> "B2T" [] n \in {2, 50} -> "R2L" [] n \in {3, 51} -> "T2B" [] OTHER -> "L2R"
RotationBetween(from, to) == ((QuarterTurns(to) + 4 - QuarterTurns(from)) % 4) * 90

(* ESC W: the operands are x, y, width and height in motion units *)
SetArea(c, r) ==
    IF ~c.p.en THEN c
    ELSE [c EXCEPT !.p.la = <<U16(r, 0) \div c.g.hm, U16(r, 2) \div c.g.vm,
                              U16(r, 4) \div c.g.hm, U16(r, 6) \div c.g.vm>>]
SetDirection(c, n) ==
    IF ~c.p.en THEN c ELSE [c EXCEPT !.p.pd = c.p.d, !.p.d = DirectionOf(n)]

(* Lay out the page for the current area and direction: the page turns with *)
(* the direction and grows so that the area fits; the area is placed on the *)
(* turned page and the position goes to its start.                          *)
LayPage(p) ==
    LET l == p.la
        swap == Turned(p.d) # Turned(p.pd)
        w0 == IF swap THEN p.pa[4] ELSE p.pa[3]
        h0 == IF swap THEN p.pa[3] ELSE p.pa[4]
        right == l[1] + l[3]  bottom == l[2] + l[4]
        w == Max2(w0, IF Turned(p.d) THEN bottom ELSE right)
        h == Max2(h0, IF Turned(p.d) THEN right ELSE bottom)
        ra == CASE p.d = "L2R" -> <<l[1], l[2], l[3], l[4]>>
                [] p.d = "R2L" -> <<Sub0(w, right), l[2], l[3], l[4]>>
                [] p.d = "T2B" -> <<Sub0(w, bottom), Sub0(h, right), l[4], l[3]>>
                [] p.d = "B2T" -> <<Sub0(w, bottom), l[1], l[4], l[3]>>
    IN [p EXCEPT !.pa = <<ra[1], ra[2], w, h>>, !.ra = ra]
(* the height of the page once it is turned back upright *)
UprightHeight(p) == IF Turned(p.d) THEN p.pa[3] ELSE p.pa[4]
============================================================================
