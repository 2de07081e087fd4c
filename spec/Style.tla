-------------------------------- MODULE Style --------------------------------
(***************************************************************************)
(* What the commands that only set things set: text style, barcode and two *)
(* dimensional code settings, stored graphics, units.                      *)
(***************************************************************************)
EXTENDS Context

FontOf(n) ==
    CASE n \in {1, 49} -> "B" [] n \in {2, 50} -> "C" [] n \in {3, 51} -> "D"
      [] n \in {4, 52} -> "E" [] n = 97 -> "SA" [] n = 98 -> "SB" [] OTHER -> "A"
SetFont(t, f) ==
    [t EXCEPT !.f = f, !.cw = IF f = "A" THEN 12 ELSE 9, !.ch = IF f = "A" THEN 24 ELSE 17]
On(n) == Bit(n, 0) = 1

(* ------------------------------- text style ---------------------------- *)
PrintMode(t0, n) ==       \* ESC !
    LET t == SetFont(t0, IF On(n) THEN "B" ELSE "A")
    IN [t EXCEPT !.b = Bit(n, 3) = 1, !.hm = 1 + Bit(n, 4), !.wm = 1 + Bit(n, 5), !.u = Bit(n, 6)]
DoubleStrike(t, n) ==     \* ESC G
    [t EXCEPT !.s = IF On(n) THEN 2 ELSE IF @ = 2 THEN 1 ELSE 0]
Invert(t, n) ==           \* GS B
    IF On(n) THEN [t EXCEPT !.inv = TRUE, !.bg = Black, !.fg = Paper]
    ELSE [t EXCEPT !.inv = FALSE, !.bg = Paper, !.fg = Black]
Effects(t, r) ==          \* GS ( N
    IF Len(r) < 3 THEN t
    ELSE LET m == ColorForNumber(Opd(r, 3, 48)) IN
         CASE r[3] = 48 -> [t EXCEPT !.fg = m]
           [] r[3] = 49 -> [t EXCEPT !.bg = m]
           [] r[3] = 50 -> [t EXCEPT !.shc = m, !.sh = Opd(r, 4, 0) \notin {0, 48}]
           [] OTHER -> t
Underline(n) == IF n \in {1, 49} THEN 1 ELSE IF n \in {2, 50} THEN 2 ELSE 0

TextStyle(t, n, r) ==
    LET a == Opd(r, 0, 0) IN
    CASE n = "ESC !" -> PrintMode(t, a)
      [] n = "ESC E" -> [t EXCEPT !.b = On(a)]
      [] n = "ESC 4" -> [t EXCEPT !.i = On(a)]
      [] n = "ESC -" -> [t EXCEPT !.u = Underline(a)]
      [] n = "ESC G" -> DoubleStrike(t, a)
      [] n = "ESC {" -> [t EXCEPT !.ud = On(a)]
      [] n = "ESC M" -> SetFont(t, FontOf(a))
      [] n = "ESC r" -> [t EXCEPT !.fg = IF a \in {1, 49} THEN Red ELSE Black]
      [] n = "GS B"  -> Invert(t, a)
      [] n = "GS ( N" -> Effects(t, r)
      [] n = "GS b"  -> [t EXCEPT !.sm = On(a)]
      [] n = "ESC t" -> [t EXCEPT !.ct = a]
      [] n = "ESC R" -> [t EXCEPT !.cs = a]
      [] n = "ESC 2" -> [t EXCEPT !.ls = 24]
      [] n = "ESC 3" -> [t EXCEPT !.ls = Opd(r, 0, 24)]
      [] OTHER -> t

(* --------------------------------- barcodes ---------------------------- *)
HriOf(n) == CASE n \in {1, 49} -> "A" [] n \in {2, 50} -> "B" [] n \in {3, 51} -> "AB" [] OTHER -> "N"
BarcodeStyle(b, n, r) ==
    CASE n = "GS h" -> [b EXCEPT !.h = Opd(r, 0, 0)]
      [] n = "GS w" -> LET a == Opd(r, 0, 2) IN IF a > 6 THEN b ELSE [b EXCEPT !.w = Max2(a, 2)]
      [] n = "GS H" -> [b EXCEPT !.hri = HriOf(Opd(r, 0, 0))]
      [] n = "GS f" -> [b EXCEPT !.f = FontOf(Opd(r, 0, 0))]
      [] OTHER -> b

(* -------------------------------- motion units ------------------------- *)
Clamp(a, lo, hi) == Max2(lo, Min2(a, hi))
MotionUnits(g, r) ==      \* GS P: zero is the default, one dot
    LET unit(n) == IF n = 0 THEN 1 ELSE Clamp(g.dpi \div n, 1, 255)
    IN [g EXCEPT !.hm = unit(Opd(r, 0, 0)), !.vm = unit(Opd(r, 1, 0))]

(* ----------------------- two dimensional code settings ------------------ *)
(* PDF417: the level of the first range the ratio falls into *)
Pdf417Level(d) ==
    LET m == Opd(d, 0, 48)  a == Sub0(Len(d), 2) * Opd(d, 1, 48) IN
    IF m # 49 THEN Sub0(m, 48)
    ELSE CASE a < 400 -> 1 [] a < 1100 -> 2 [] a < 2100 -> 3 [] a < 4600 -> 4
           [] a < 10100 -> 5 [] a < 20100 -> 6 [] a < 40100 -> 7 [] OTHER -> 8
DataMatrix(dm, d) ==      \* <<type, columns, rows, width>>
    LET m == Opd(d, 0, 0)  a == Opd(d, 1, 0)  b == Opd(d, 2, 0) IN
    CASE m \in {0, 48} -> <<0, a, b, dm[4]>>
      [] m \in {1, 49} -> <<2, a, b, dm[4]>>
      [] OTHER -> dm
Code2DSetting(q, m, fn, d) ==
    LET a == Opd(d, 0, 0)  one == Opd(d, 0, 1) IN
    CASE m = 48 /\ fn = 65 -> [q EXCEPT !.pdf[1] = a]
      [] m = 48 /\ fn = 66 -> [q EXCEPT !.pdf[2] = a]
      [] m = 48 /\ fn = 67 -> [q EXCEPT !.pdf[3] = a]
      [] m = 48 /\ fn = 69 -> [q EXCEPT !.pdf[5] = Pdf417Level(d)]
      [] m = 48 /\ fn = 70 -> [q EXCEPT !.pdft = a # 0]
      [] m = 49 /\ fn = 65 -> [q EXCEPT !.model = CASE a = 50 -> 2 [] a = 51 -> 3 [] OTHER -> 1]
      [] m = 49 /\ fn = 67 -> [q EXCEPT !.size = one]
      [] m = 49 /\ fn = 69 -> [q EXCEPT !.ec = CASE a \in {1, 49} -> "M" [] a \in {2, 50} -> "Q"
                                                 [] a \in {3, 51} -> "H" [] OTHER -> "L"]
      [] m = 50 /\ fn = 65 -> [q EXCEPT !.maxi = Sub0(Opd(d, 0, 50), 48)]
      [] m = 51 /\ fn = 67 -> [q EXCEPT !.gs1w = one]
      [] m = 51 /\ fn = 71 -> [q EXCEPT !.gs1m = U16(d, 0)]
      [] m = 52 /\ fn = 67 -> [q EXCEPT !.compw = one]
      [] m = 52 /\ fn = 71 -> [q EXCEPT !.compm = U16(d, 0)]
      [] m = 52 /\ fn = 72 -> [q EXCEPT !.compf = FontOf(a)]
      [] m = 53 /\ fn = 66 -> [q EXCEPT !.aztec[1] = IF a \in {1, 49} THEN 1 ELSE 0,
                                        !.aztec[2] = IF Opd(d, 1, 0) \in 1 .. 32 THEN Opd(d, 1, 0) ELSE 0]
      [] m = 53 /\ fn = 67 -> IF a \in 2 .. 16 THEN [q EXCEPT !.aztec[3] = a] ELSE q
      [] m = 53 /\ fn = 69 -> [q EXCEPT !.aztec[4] = Opd(d, 0, 5)]
      [] m = 54 /\ fn = 66 -> [q EXCEPT !.dm = DataMatrix(q.dm, d)]
      [] m = 54 /\ fn = 67 -> [q EXCEPT !.dm[4] = one]
      [] OTHER -> q

(* ------------------------------ stored graphics ------------------------- *)
Put(st, k, v) == [x \in DOMAIN st \cup {k} |-> IF x = k THEN v ELSE st[x]]
Del(st, ks) == [x \in DOMAIN st \ ks |-> st[x]]
InArea(st, a) == {k \in DOMAIN st : k[1] = a}
StoreGraphics(s, fn, d) ==
    CASE fn \in {67, 83} ->
           IF Len(d) < 8 THEN s
           ELSE [s EXCEPT !.st = Put(@, <<IF fn = 67 THEN "D" ELSE "R", d[2], d[3]>>, NamedRaster(d))]
      [] fn \in {68, 84} ->
           IF Len(d) < 8 THEN s
           ELSE [s EXCEPT !.st = Put(@, <<IF fn = 68 THEN "D" ELSE "R", d[2], d[3]>>, NamedColumn(d))]
      [] fn = 65 -> [s EXCEPT !.st = Del(@, InArea(@, "D"))]
      [] fn = 81 -> [s EXCEPT !.st = Del(@, InArea(@, "R"))]
      [] fn = 66 -> IF Len(d) < 2 THEN s ELSE [s EXCEPT !.st = Del(@, {<<"D", d[1], d[2]>>})]
      [] fn = 82 -> IF Len(d) < 2 THEN s ELSE [s EXCEPT !.st = Del(@, {<<"R", d[1], d[2]>>})]
      [] fn = 112 -> [s EXCEPT !.bf = Append(@, BufferRaster(d))]
      [] fn = 113 -> [s EXCEPT !.bf = Append(@, BufferColumn(d))]
      [] OTHER -> s
DotDensity(g, d) ==
    LET x == Opd(d, 0, 50)  y == Opd(d, 1, 50) IN
    IF x = 50 /\ y = 50 THEN [g EXCEPT !.dpi = 180]
    ELSE IF x = 51 /\ y = 51 THEN [g EXCEPT !.dpi = 360] ELSE g
============================================================================
