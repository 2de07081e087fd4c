------------------------------ MODULE MC_Canvas ------------------------------
(* Every sequence of Depth operations on small canvases: what the operations *)
(* promise about every dot holds, in words that do not depend on how the     *)
(* specification computes them.                                              *)
EXTENDS Canvas, TLC
CONSTANTS Depth, Sizes
VARIABLES c, prev, op
vars == <<c, prev, op>>

Grey == 8421504
Px(w, h, k) == [i \in 1 .. w * h |-> IF (i + k) % 3 = 0 THEN Black ELSE IF (i + k) % 3 = 1 THEN Clear ELSE Grey]
Ops == {<<"put", x, y, w, h, m>> : x \in {0, 1, 2}, y \in {0, 1, 3}, w \in {1, 2}, h \in {0, 2}, m \in BOOLEAN}
       \cup {<<"flip", x, y, w, h>> : x \in {0, 1}, y \in {0, 1}, w \in {1, 2}, h \in {1, 2}}
       \cup {<<"turn", q>> : q \in 1 .. 3} \cup {<<"wider", w>> : w \in {1, 3, 4}}
       \cup {<<"taller", h>> : h \in {1, 3}} \cup {<<"page", w, h, q>> : w \in {1, 3}, h \in {2, 3}, q \in 0 .. 3}
Do(o) ==
    CASE o[1] = "put" -> Put(c, o[2], o[3], o[4], o[5], Px(o[4], o[5], o[2] + o[3]), o[6])
      [] o[1] = "flip" -> Flip(c, o[2], o[3], o[4], o[5])
      [] o[1] = "turn" -> Turn(c, o[2])
      [] o[1] = "wider" -> Wider(c, o[2])
      [] o[1] = "taller" -> Taller(c, o[2])
      [] o[1] = "page" -> GrowPage(c, o[2], o[3], o[4])
MCInit == /\ c \in {Blank(w, h, g) : w \in Sizes, h \in Sizes, g \in BOOLEAN}
          /\ prev = c /\ op = <<"none">>
MCNext == \E o \in Ops : TLCGet("level") <= Depth /\ c' = Do(o) /\ prev' = c /\ op' = o
MCSpec == MCInit /\ [][MCNext]_vars

Filled == Len(c.p) = c.w * c.h /\ (c.w = 0 => c.h = 0) /\ \A i \in DOMAIN c.p : c.p[i] \in 0 .. White
In(cv, x, y) == x \in 0 .. cv.w - 1 /\ y \in 0 .. cv.h - 1
Grid == {<<x, y>> : x \in 0 .. 8, y \in 0 .. 8}
Was(x, y) == IF In(prev, x, y) THEN Dot(prev, x, y) ELSE White

PutOnlyThere == op[1] = "put" =>
    /\ c.w = prev.w /\ c.h >= prev.h /\ (~c.grow => c.h = prev.h)
    /\ (c.grow /\ op[2] < c.w => c.h = Max2(prev.h, op[3] + op[5]))
    /\ \A xy \in Grid : In(c, xy[1], xy[2]) =>
         LET i == xy[1] - op[2]  j == xy[2] - op[3]
             d == Dot(c, xy[1], xy[2])  px == Px(op[4], op[5], op[2] + op[3])
         IN IF i \in 0 .. op[4] - 1 /\ j \in 0 .. op[5] - 1
            THEN d = Ink(Was(xy[1], xy[2]), px[(j * op[4]) + i + 1], op[6]) ELSE d = Was(xy[1], xy[2])
TurnsEveryDot == op[1] = "turn" =>
    /\ \A xy \in Grid : In(prev, xy[1], xy[2]) => Was(xy[1], xy[2]) =
         LET x == xy[1]  y == xy[2] IN
         CASE op[2] = 1 -> Dot(c, prev.h - 1 - y, x) [] op[2] = 2 -> Dot(c, prev.w - 1 - x, prev.h - 1 - y)
           [] op[2] = 3 -> Dot(c, y, prev.w - 1 - x)
    /\ Same(Turn(c, 4 - op[2]), prev) \/ prev.p = <<>>
TurnsAgree == c.p # <<>> => Turn90(Turn90(c)) = Turn180(c) /\ Turn90(Turn180(c)) = Turn270(c) /\ Turn(c, 4) = c
PageStays == op[1] = "page" /\ prev.p # <<>> =>
    LET up == Turn(c, 4 - op[4])  was == Turn(prev, 4 - op[4]) IN
    /\ c.w = Max2(op[2], prev.w) /\ c.h = Max2(op[3], prev.h)
    /\ \A xy \in Grid : In(up, xy[1], xy[2]) =>
         Dot(up, xy[1], xy[2]) = IF In(was, xy[1], xy[2]) THEN Dot(was, xy[1], xy[2]) ELSE White
FlipMirrors == op[1] = "flip" /\ Fits(prev, op[2], op[3], op[4], op[5]) =>
    /\ Same(Flip(Flip(c, op[2], op[3], op[4], op[5]), op[2], op[3], op[4], op[5]), c)
    /\ \A xy \in Grid : In(c, xy[1], xy[2]) => Dot(c, xy[1], xy[2]) =
         IF xy[1] - op[2] \in 0 .. op[4] - 1 /\ xy[2] - op[3] \in 0 .. op[5] - 1
         THEN Was(xy[1], op[3] + op[5] - 1 - (xy[2] - op[3])) ELSE Was(xy[1], xy[2])
WiderCentres == op[1] = "wider" /\ op[2] >= prev.w =>
    /\ c.w = op[2] /\ (prev.w > 0 => c.h = prev.h)
    /\ \A xy \in Grid : In(prev, xy[1], xy[2]) => Dot(c, xy[1] + ((op[2] - prev.w) \div 2), xy[2]) = Was(xy[1], xy[2])
==============================================================================
