----------------------------- MODULE MC_Picture ------------------------------
(* Picture is Canvas: after every sequence of Depth operations on small       *)
(* canvases the cells say the same of every dot.                              *)
EXTENDS Picture
CONSTANTS Depth, Sizes
VARIABLES c, g
vars == <<c, g>>

Grey == 8421504
Px(w, h, k) == [i \in 1 .. w * h |-> IF (i + k) % 3 = 0 THEN Black ELSE IF (i + k) % 3 = 1 THEN Clear ELSE Grey]
Ops == {<<"put", x, y, w, h, m>> : x \in {0, 1, 2}, y \in {0, 1, 3}, w \in {1, 2}, h \in {0, 2}, m \in BOOLEAN}
       \cup {<<"rect", x, y, w, h>> : x \in {0, 2}, y \in {0, 1}, w \in {1, 3}, h \in {1, 2}}
       \cup {<<"flip", x, y, w, h>> : x \in {0, 1}, y \in {0, 1}, w \in {1, 2}, h \in {1, 2, 3}}
       \cup {<<"turn", q>> : q \in 1 .. 3} \cup {<<"wider", w>> : w \in {1, 3, 4}}
       \cup {<<"taller", h>> : h \in {1, 3}} \cup {<<"page", w, h, q>> : w \in {1, 3}, h \in {2, 3}, q \in 0 .. 3}
       \cup {<<"paste", x>> : x \in {0, 1}}
OnCanvas(o) ==
    CASE o[1] = "put" -> Put(c, o[2], o[3], o[4], o[5], Px(o[4], o[5], o[2] + o[3]), o[6])
      [] o[1] = "rect" -> Rect(c, o[2], o[3], o[4], o[5], Grey)
      [] o[1] = "flip" -> Flip(c, o[2], o[3], o[4], o[5])
      [] o[1] = "turn" -> Turn(c, o[2])
      [] o[1] = "wider" -> Wider(c, o[2])
      [] o[1] = "taller" -> Taller(c, o[2])
      [] o[1] = "page" -> GrowPage(c, o[2], o[3], o[4])
      [] o[1] = "paste" -> Put(c, o[2], 1, c.w, c.h, c.p, FALSE)
OnGrid(o) ==
    CASE o[1] = "put" -> LET px == Px(o[4], o[5], o[2] + o[3])
                         IN Draw(g, o[2], o[3], OfDots(o[4], o[5], LAMBDA x, y : px[(y * o[4]) + x + 1]), o[6])
      [] o[1] = "rect" -> Draw(g, o[2], o[3], Solid(o[4], o[5], Grey), TRUE)
      [] o[1] = "flip" -> Mirror(g, o[2], o[3], o[4], o[5])
      [] o[1] = "turn" -> Turned(g, o[2])
      [] o[1] = "wider" -> MakeWider(g, o[2])
      [] o[1] = "taller" -> MakeTaller(g, o[2])
      [] o[1] = "page" -> GrowPaper(g, o[2], o[3], o[4])
      [] o[1] = "paste" -> Draw(g, o[2], 1, g, FALSE)
MCInit == \E w, h \in Sizes, b \in BOOLEAN : c = Blank(w, h, b) /\ g = Empty(w, h, b)
MCNext == \E o \in Ops : TLCGet("level") <= Depth /\ c' = OnCanvas(o) /\ g' = OnGrid(o)
MCSpec == MCInit /\ [][MCNext]_vars

Grid == g.w = c.w /\ g.h = c.h /\ g.grow = c.grow /\ Len(g.c) = Len(g.xs) * Len(g.ys)
        /\ \A s \in {g.xs, g.ys} : (s # <<>> => s[1] = 0) /\ \A i \in 1 .. Len(s) - 1 : s[i] < s[i + 1]
        /\ (g.w > 0 /\ g.h > 0 => Last(g.xs) < g.w /\ Last(g.ys) < g.h)
IsCanvas == \A x \in 0 .. c.w - 1, y \in 0 .. c.h - 1 : Dot(c, x, y) = DotOf(g, x, y)
SameToItself == g.c # <<>> => Differ(g, g) = <<>>
(* magnified k times and taken back it is the same *)
Magnified ==
    g.c # <<>> =>
      \A k \in 1 .. 2 : LET b == Sampled(g, k * g.w, g.h) IN
         /\ \A x \in 0 .. b.w - 1, y \in 0 .. b.h - 1 : DotOf(b, x, y) = DotOf(g, x \div k, y)
         /\ Differ(Sampled(b, g.w, g.h), g) = <<>>
==============================================================================
