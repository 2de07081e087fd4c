-------------------------------- MODULE Images -------------------------------
(***************************************************************************)
(* Bit images.  A picture is [w, h, px] with px a row by row sequence of   *)
(* w * h pixels: 0 where nothing is printed, else 1 + the colour.          *)
(***************************************************************************)
EXTENDS Bytes, TLC

Paper  == 16777215
Black  == 0
Red    == 158 * 65536 + 22 * 256 + 22
Blue   == 27 * 65536 + 57 * 256 + 169
ColorForNumber(n) ==
    CASE n \in {0, 48} -> Paper
      [] n \in {2, 50} -> Red
      [] n \in {3, 51} -> Blue
      [] OTHER -> Black

(* Bits of a raster row are packed from the left, rows start on a byte *)
RasterBytesPerRow(w) == CeilDiv(w, 8)
RasterBit(d, w, x, y) == Bit(d[y * RasterBytesPerRow(w) + x \div 8 + 1], 7 - (x % 8))
(* Bits of a column are packed from the top, columns start on a byte *)
ColumnBit(d, h, x, y) == Bit(d[x * CeilDiv(h, 8) + y \div 8 + 1], 7 - (y % 8))

(* How many pixels n bytes unpack to when rows are w pixels wide *)
UnpackedLen(n, w) ==
    IF w = 0 THEN 8 * n
    ELSE LET bpr == CeilDiv(w, 8) IN (n \div bpr) * w + (n % bpr) * 8

ErrorGfx(m) == [g |-> "error", m |-> m]
ImageGfx(w, h, flow, px) ==
    [g |-> "image", x |-> 0, y |-> 0, w |-> w, h |-> h, flow |-> flow, ud |-> FALSE,
     n |-> w * h, px |-> px]
(* w * h in decimal digits, which may be more than TLC can count *)
ProductText(w, h) ==
    LET lo == w * (h % 1000)
        top == w * (h \div 1000) + lo \div 1000
        low == lo % 1000
    IN IF top = 0 THEN ToString(low)
       ELSE ToString(top) \o (IF low < 10 THEN "00" ELSE IF low < 100 THEN "0" ELSE "") \o ToString(low)
ShortData(w, h, n) == ErrorGfx("Not enough data to parse single color raster image expected: "
                               \o ProductText(w, h) \o " got: " \o ToString(n))

(* An image of bits bit(x, y), every dot printed sx by sy times *)
Dots(w, h, sx, sy, color, flow, bit(_, _)) ==
    LET fx == Max2(sx, 1)  fy == Max2(sy, 1)  W == w * fx  H == h * fy
    IN ImageGfx(W, H, flow,
         [i \in 1 .. W * H |->
            IF bit(((i - 1) % W) \div fx, ((i - 1) \div W) \div fy) = 1 THEN 1 + color ELSE 0])

RasterImage(w, h, sx, sy, color, flow, d) ==
    LET n == UnpackedLen(Len(d), w)
    IN IF n # Mul(w, h) THEN ShortData(w, h, n)
       ELSE Dots(w, h, sx, sy, color, flow, LAMBDA x, y : RasterBit(d, w, x, y))

ColumnImage(w, h, sx, sy, color, flow, d) ==
    LET n == UnpackedLen(Len(d), h)
    IN IF n # Mul(w, h) THEN ShortData(w, h, n)
       ELSE Dots(w, h, sx, sy, color, flow, LAMBDA x, y : ColumnBit(d, h, x, y))

(* Layers of the same size, each one colour byte and its bits; a dot has   *)
(* the colour of the last layer that prints it                             *)
LayeredImage(perLayer, numColors, w, h, d, errmsg, bit(_, _, _)) ==
    IF Len(d) # Mul(perLayer, numColors) THEN ErrorGfx(errmsg)
    ELSE IF numColors = 0 THEN ErrorGfx("No layers to merge")
    ELSE LET layer == [k \in 1 .. numColors |-> SubSeq(d, (k - 1) * perLayer + 2, k * perLayer)]
             color == [k \in 1 .. numColors |-> ColorForNumber(d[(k - 1) * perLayer + 1])]
             RECURSIVE top(_, _, _)
             top(k, x, y) == IF k = 0 THEN 0
                             ELSE IF bit(layer[k], x, y) = 1 THEN 1 + color[k]
                             ELSE top(k - 1, x, y)
         IN ImageGfx(w, h, "B", [i \in 1 .. w * h |-> top(numColors, (i - 1) % w, (i - 1) \div w)])

RasterLayers(w, h, numColors, d) ==
    LayeredImage(Mul(CeilDiv(w, 8), h) + 1, numColors, w, h, d,
                 "Not enough data to parse raster image multi color",
                 LAMBDA l, x, y : RasterBit(l, w, x, y))
ColumnLayers(w, h, numColors, d) ==
    LayeredImage(Mul(CeilDiv(h, 8), w) + 1, numColors, w, h, d,
                 "Not enough data to parse raster image",
                 LAMBDA l, x, y : ColumnBit(l, h, x, y))

(* The print buffer: layers of any size up to the first, drawn at its top left *)
MergeBuffer(bf) ==
    LET errs == SelectSeq(bf, LAMBDA g : g.g = "error")
        base == bf[1]
        RECURSIVE top(_, _, _)
        top(k, x, y) ==
            IF k = 0 THEN 0
            ELSE LET L == bf[k] IN
                 IF x < L.w /\ y < L.h /\ L.px[y * L.w + x + 1] # 0 THEN L.px[y * L.w + x + 1]
                 ELSE top(k - 1, x, y)
    IN IF errs # <<>> THEN errs[1]
       ELSE IF \E k \in DOMAIN bf : bf[k].w > base.w \/ bf[k].h > base.h
       THEN ErrorGfx("Could not merge image layers")
       ELSE [base EXCEPT !.px = [i \in 1 .. base.w * base.h |->
                                   top(Len(bf), (i - 1) % base.w, (i - 1) \div base.w)]]

(* A picture printed later, every dot of it fx by fy times *)
Enlarged(g, fx, fy) ==
    IF g.g # "image" \/ (fx = 1 /\ fy = 1) THEN g
    ELSE LET W == g.w * fx  H == g.h * fy
         IN [g EXCEPT !.w = W, !.h = H, !.n = W * H,
               !.px = [i \in 1 .. W * H |-> g.px[(((i - 1) \div W) \div fy) * g.w + (((i - 1) % W) \div fx) + 1]]]

(* --------------------- the commands that carry images ------------------ *)
BitImageOf(r) ==      \* ESC * m nL nH d...
    LET m == Opd(r, 0, 0)  hd == Len(r) >= 3
        w == IF hd THEN U16(r, 1) ELSE 0
        h == IF hd THEN (IF m \in {32, 33} THEN 24 ELSE 8) ELSE 0
        dbl == hd /\ m \in {0, 32}
    IN ColumnImage(w, h, IF dbl THEN 2 ELSE 1, IF dbl THEN 3 ELSE 1, Black, "I",
                   IF hd THEN Tail2(r, 3) ELSE r)
RasterOf(r) ==        \* GS v 0 m xL xH yL yH d...
    LET hd == Len(r) >= 5
        m == IF hd THEN r[1] ELSE 0
        w == IF hd THEN 8 * U16(r, 1) ELSE 0
        h == IF hd THEN U16(r, 3) ELSE 0
    IN RasterImage(w, h, IF m \in {1, 49, 3, 51} THEN 2 ELSE 1, IF m \in {2, 50, 3, 51} THEN 2 ELSE 1,
                   Black, "B", IF hd THEN Tail2(r, 5) ELSE r)
(* Functions of GS ( L / GS 8 L: d is what follows the function code *)
NamedRaster(d) == RasterLayers(U16(d, 4), U16(d, 6), d[4], Tail2(d, 8))
NamedColumn(d) == ColumnLayers(U16(d, 4), U16(d, 6), d[4], Tail2(d, 8))
BufferRaster(d) ==
    IF Len(d) < 8 THEN ErrorGfx("Not enough parameters for buffer graphics")
    ELSE RasterImage(U16(d, 4), U16(d, 6), d[2], d[3], ColorForNumber(d[4]), "B", Tail2(d, 8))
BufferColumn(d) ==
    IF Len(d) < 8 THEN ErrorGfx("Not enough parameters for buffer graphics")
    ELSE ColumnImage(U16(d, 4), U16(d, 6), d[2], d[3], ColorForNumber(d[4]), "B", Tail2(d, 8))
============================================================================
