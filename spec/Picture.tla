------------------------------- MODULE Picture -------------------------------
(***************************************************************************)
(* The canvas of Canvas.tla for pictures of any size: instead of every dot *)
(* the colours of a grid of cells.  xs and ys are where the columns and    *)
(* rows of the grid start, c its colours row by row.  MC_Picture checks    *)
(* that it is Canvas, dot for dot.                                         *)
(*                                                                         *)
(* A colour may be Unknown: what is under ink that the specification does  *)
(* not say the colour of.                                                  *)
(***************************************************************************)
EXTENDS Canvas, TLC
Unknown == -2
InkOn(old, new, mul) ==
    IF new = Clear THEN old
    ELSE IF new = Unknown \/ (mul /\ old = Unknown) THEN Unknown
    ELSE Ink(old, new, mul)

Empty(w, h, grow) == [w |-> w, h |-> IF w = 0 THEN 0 ELSE h, grow |-> grow,
                      xs |-> IF w = 0 THEN <<>> ELSE <<0>>, ys |-> IF w = 0 \/ h = 0 THEN <<>> ELSE <<0>>,
                      c |-> IF w = 0 \/ h = 0 THEN <<>> ELSE <<White>>]
Sorted(S) == SetToSortSeq(S, LAMBDA a, b : a < b)
SetOf(s) == {s[i] : i \in DOMAIN s}
(* the cell that dot v is in *)
RECURSIVE Between(_, _, _, _)
Between(s, v, lo, hi) ==
    IF lo = hi THEN lo
    ELSE LET mid == (lo + hi + 1) \div 2 IN IF s[mid] <= v THEN Between(s, v, mid, hi) ELSE Between(s, v, lo, mid - 1)
CellAt(s, v) == Between(s, v, 1, Len(s))
DotOf(c, x, y) == c.c[((CellAt(c.ys, y) - 1) * Len(c.xs)) + CellAt(c.xs, x)]

(* The picture of w x h whose dot x, y is dot fx(x), fy(y) of c, White where *)
(* one of them is -1; columns start at X and rows at Y                       *)
Moved(c, w, h, X, Y, fx(_), fy(_)) ==
    IF w = 0 \/ h = 0 THEN [Empty(w, h, c.grow) EXCEPT !.h = IF w = 0 THEN 0 ELSE h]
    ELSE LET ci == TLCEval([i \in DOMAIN X |-> IF fx(X[i]) < 0 THEN 0 ELSE CellAt(c.xs, fx(X[i]))])
             cj == TLCEval([j \in DOMAIN Y |-> IF fy(Y[j]) < 0 THEN 0 ELSE CellAt(c.ys, fy(Y[j]))])
             n == Len(X)  m == Len(c.xs)
         IN [c EXCEPT !.w = w, !.h = h, !.xs = X, !.ys = Y,
              !.c = TLCEval([k \in 1 .. n * Len(Y) |->
                      LET i == ci[((k - 1) % n) + 1]  j == cj[((k - 1) \div n) + 1]
                      IN IF i = 0 \/ j = 0 THEN White ELSE c.c[((j - 1) * m) + i]])]
Same1(v) == v

MakeTaller(c, h) ==
    IF h <= c.h \/ c.w = 0 THEN c
    ELSE Moved(c, c.w, h, c.xs, Append(c.ys, c.h), Same1, LAMBDA y : IF y >= c.h THEN -1 ELSE y)
(* c placed at left, top of a picture of w x h *)
Framed(c, w, h, left, top) ==
    LET X == Sorted({0} \cup {left + x : x \in SetOf(c.xs)} \cup ({left + c.w} \ {w}))
        Y == Sorted({0} \cup {top + y : y \in SetOf(c.ys)} \cup ({top + c.h} \ {h}))
    IN Moved(c, w, h, X, Y, LAMBDA x : IF x \in left .. left + c.w - 1 THEN x - left ELSE -1,
                            LAMBDA y : IF y \in top .. top + c.h - 1 THEN y - top ELSE -1)
MakeWider(c, w) == IF w < c.w THEN c ELSE Framed(c, w, c.h, (w - c.w) \div 2, 0)
GrowPaper(c, w, h, q) ==
    LET nw == Max2(w, c.w)  nh == Max2(h, c.h)
    IN Framed(c, nw, nh, IF q \in {1, 2} THEN nw - c.w ELSE 0, IF q \in {2, 3} THEN nh - c.h ELSE 0)
EmptyOf(c, w) == Empty(w, 0, c.grow)

(* Draw picture g *)
Draw(c, x, y, g, mul) ==
    IF Refused(c, x, y) THEN c
    ELSE LET t == IF c.grow THEN MakeTaller(c, y + g.h) ELSE c
             x1 == Min2(x + g.w, t.w)  y1 == Min2(y + g.h, t.h)
         IN IF g.w = 0 \/ g.h = 0 THEN t
            ELSE LET X == Sorted(SetOf(t.xs) \cup {v \in {x + s : s \in SetOf(g.xs)} : v < x1} \cup ({x1} \ {t.w}))
                     Y == Sorted(SetOf(t.ys) \cup {v \in {y + s : s \in SetOf(g.ys)} : v < y1} \cup ({y1} \ {t.h}))
                     ti == TLCEval([i \in DOMAIN X |-> CellAt(t.xs, X[i])])
                     tj == TLCEval([j \in DOMAIN Y |-> CellAt(t.ys, Y[j])])
                     gi == TLCEval([i \in DOMAIN X |-> IF X[i] >= x /\ X[i] < x1 THEN CellAt(g.xs, X[i] - x) ELSE 0])
                     gj == TLCEval([j \in DOMAIN Y |-> IF Y[j] >= y /\ Y[j] < y1 THEN CellAt(g.ys, Y[j] - y) ELSE 0])
                     n == Len(X)  m == Len(t.xs)  gm == Len(g.xs)
                 IN [t EXCEPT !.xs = X, !.ys = Y,
                      !.c = TLCEval([k \in 1 .. n * Len(Y) |->
                        LET i == ((k - 1) % n) + 1  j == ((k - 1) \div n) + 1
                            old == t.c[((tj[j] - 1) * m) + ti[i]]
                        IN IF gi[i] = 0 \/ gj[j] = 0 THEN old
                           ELSE InkOn(old, g.c[((gj[j] - 1) * gm) + gi[i]], mul)])]
Solid(w, h, ink) == [Empty(w, h, FALSE) EXCEPT !.c = IF w = 0 \/ h = 0 THEN <<>> ELSE <<ink>>]
(* the picture of the dots at(x, y) *)
OfDots(w, h, at(_, _)) ==
    IF w = 0 \/ h = 0 THEN Empty(w, h, FALSE)
    ELSE LET X == Sorted({0} \cup {x \in 1 .. w - 1 : \E y \in 0 .. h - 1 : at(x, y) # at(x - 1, y)})
             Y == Sorted({0} \cup {y \in 1 .. h - 1 : \E x \in SetOf(X) : at(x, y) # at(x, y - 1)})
             n == Len(X)
         IN [Empty(w, h, FALSE) EXCEPT !.xs = X, !.ys = Y,
              !.c = TLCEval([k \in 1 .. n * Len(Y) |-> at(X[((k - 1) % n) + 1], Y[((k - 1) \div n) + 1])])]
(* every dot of g n times as large, then every dot whose place divides evenly: *)
(* a picture of w x h of which dot x, y is dot x * kx div w.. of g              *)
Sampled(g, w, h) ==
    IF g.w = 0 \/ g.h = 0 \/ w = 0 \/ h = 0 THEN Empty(w, h, FALSE)
    ELSE LET from(s, n, full) == {v \in {CeilDiv(x * n, full) : x \in SetOf(s)} : v < n}
         IN Moved(g, w, h, Sorted(from(g.xs, w, g.w)), Sorted(from(g.ys, h, g.h)),
                  LAMBDA x : (x * g.w) \div w, LAMBDA y : (y * g.h) \div h)
Recoloured(g, f(_)) == [g EXCEPT !.c = TLCEval([k \in DOMAIN g.c |-> f(g.c[k])])]

(* the starts of the cells in the other direction *)
Back(s, n) == [i \in 1 .. Len(s) |-> IF i = 1 THEN 0 ELSE n - s[Len(s) + 2 - i]]
RECURSIVE Turned(_, _)
Quarter(c) ==
    IF c.w = 0 \/ c.h = 0 THEN Empty(c.h, c.w, c.grow)
    ELSE LET X == Back(c.ys, c.h)  n == Len(X)  m == Len(c.xs)
         IN [c EXCEPT !.w = c.h, !.h = c.w, !.xs = X, !.ys = c.xs,
              !.c = TLCEval([k \in 1 .. n * m |->
                      c.c[((n - 1 - ((k - 1) % n)) * m) + ((k - 1) \div n) + 1]])]
Turned(c, quarters) == IF quarters % 4 = 0 THEN c ELSE Turned(Quarter(c), (quarters % 4) - 1)

Mirror(c, x, y, w, h) ==
    IF ~Fits(c, x, y, w, h) THEN c
    ELSE LET t == MakeTaller(c, y + h) IN
         IF w = 0 \/ h = 0 THEN t
         ELSE LET inside == {b \in SetOf(t.ys) : b > y /\ b < y + h}
                  X == Sorted(SetOf(t.xs) \cup {x} \cup ({x + w} \ {t.w}))
                  Y == Sorted(SetOf(t.ys) \cup {y} \cup ({y + h} \ {t.h}) \cup {(2 * y) + h - b : b \in inside})
                  ti == TLCEval([i \in DOMAIN X |-> CellAt(t.xs, X[i])])
                  tj == TLCEval([j \in DOMAIN Y |-> CellAt(t.ys, Y[j])])
                  fj == TLCEval([j \in DOMAIN Y |-> IF Y[j] >= y /\ Y[j] < y + h
                                                     THEN CellAt(t.ys, (2 * y) + h - 1 - Y[j]) ELSE tj[j]])
                  n == Len(X)  m == Len(t.xs)
              IN [t EXCEPT !.xs = X, !.ys = Y,
                   !.c = TLCEval([k \in 1 .. n * Len(Y) |->
                     LET i == ((k - 1) % n) + 1  j == ((k - 1) \div n) + 1
                         row == IF X[i] >= x /\ X[i] < x + w THEN fj[j] ELSE tj[j]
                     IN t.c[((row - 1) * m) + ti[i]]])]

(* ----------------------------- comparison ------------------------------ *)
Abs(n) == IF n < 0 THEN -n ELSE n
Near(a, b) == \/ a = b \/ a = Unknown
              \/ /\ Abs(RedOf(a) - RedOf(b)) <= 2 /\ Abs(GreenOf(a) - GreenOf(b)) <= 2
                 /\ Abs(BlueOf(a) - BlueOf(b)) <= 2
(* The first cell, <<x, y, colour of a, colour of b>>, that differs in pictures *)
(* of one size, <<>> if there is none                                           *)
Differ(a, b) ==
    LET X == Sorted(SetOf(a.xs) \cup SetOf(b.xs))  Y == Sorted(SetOf(a.ys) \cup SetOf(b.ys))
        ai == TLCEval([i \in DOMAIN X |-> CellAt(a.xs, X[i])])  aj == TLCEval([j \in DOMAIN Y |-> CellAt(a.ys, Y[j])])
        bi == TLCEval([i \in DOMAIN X |-> CellAt(b.xs, X[i])])  bj == TLCEval([j \in DOMAIN Y |-> CellAt(b.ys, Y[j])])
        A(i, j) == a.c[((aj[j] - 1) * Len(a.xs)) + ai[i]]
        B(i, j) == b.c[((bj[j] - 1) * Len(b.xs)) + bi[i]]
        bad(j) == {i \in DOMAIN X : ~Near(A(i, j), B(i, j))}
        rows == {j \in DOMAIN Y : bad(j) # {}}
    IN IF rows = {} THEN <<>>
       ELSE LET j == CHOOSE r \in rows : \A s \in rows : r <= s
                i == CHOOSE r \in bad(j) : \A s \in bad(j) : r <= s
            IN <<X[i], Y[j], A(i, j), B(i, j)>>
==============================================================================
