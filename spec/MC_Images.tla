------------------------------- MODULE MC_Images -----------------------------
(* Small pictures of every format: unpacking is undone by packing, scaling   *)
(* repeats dots, layers cover one another in order.                          *)
EXTENDS Images
CONSTANTS Values, MaxBytes
VARIABLES mF, mW, mH,    \* a format and a size
          mD,            \* the bytes of the picture so far
          mG             \* the picture, once the bytes are there
vars == <<mF, mW, mH, mD, mG>>

PerLine(f, w, h) == IF f = "raster" THEN RasterBytesPerRow(w) * h ELSE CeilDiv(h, 8) * w
Shapes == {<<f, w, h>> \in {"raster", "column"} \X (1 .. 9) \X (1 .. 9) : PerLine(f, w, h) <= MaxBytes}
Pic(sx, sy) == IF mF = "raster" THEN RasterImage(mW, mH, sx, sy, Black, "B", mD)
               ELSE ColumnImage(mW, mH, sx, sy, Black, "B", mD)
NoPic == [g |-> "none"]
Init == \E q \in Shapes : mF = q[1] /\ mW = q[2] /\ mH = q[3] /\ mD = <<>> /\ mG = NoPic
AddByte == /\ Len(mD) < PerLine(mF, mW, mH)
           /\ \E v \in Values : mD' = Append(mD, v)
           /\ UNCHANGED <<mF, mW, mH, mG>>
Unpack == /\ Len(mD) = PerLine(mF, mW, mH) /\ mG = NoPic
          /\ mG' = TLCEval(Pic(1, 1)) /\ UNCHANGED <<mF, mW, mH, mD>>
Next == AddByte \/ Unpack
MCSpec == Init /\ [][Next]_vars
One == mG
(* the n bits b(1..n), most significant first, as a number *)
Number(n, b(_)) == FoldLeft(LAMBDA a, i : 2 * a + b(i), 0, [i \in 1 .. n |-> i])
Dot(g, x, y) == IF x < g.w /\ y < g.h /\ g.px[y * g.w + x + 1] # 0 THEN 1 ELSE 0
Packed ==
    IF mF = "raster"
    THEN LET per == RasterBytesPerRow(mW)
         IN [i \in 1 .. per * mH |-> Number(8, LAMBDA b : Dot(One, ((i - 1) % per) * 8 + b - 1, (i - 1) \div per))]
    ELSE LET per == CeilDiv(mH, 8)
         IN [i \in 1 .. per * mW |-> Number(8, LAMBDA b : Dot(One, (i - 1) \div per, ((i - 1) % per) * 8 + b - 1))]
(* the padding at the end of a row or column is not printed *)
Padding(i) == IF mF = "raster"
              THEN IF i % RasterBytesPerRow(mW) = 0 THEN ((8 - (mW % 8)) % 8) ELSE 0
              ELSE IF i % CeilDiv(mH, 8) = 0 THEN ((8 - (mH % 8)) % 8) ELSE 0
(* Data whose last row is exactly full unpacks; anything else is an error   *)
Unpacks == mG # NoPic => (One.g = "image" <=> UnpackedLen(Len(mD), IF mF = "raster" THEN mW ELSE mH) = mW * mH)
RoundTrip == One.g = "image" =>
    \A i \in DOMAIN mD : Packed[i] = (mD[i] \div (2 ^ Padding(i))) * (2 ^ Padding(i))
Size == One.g = "image" => One.w = mW /\ One.h = mH /\ Len(One.px) = mW * mH
Scaled == One.g = "image" =>
    \A sx, sy \in 1 .. 2 : LET g == Pic(sx, sy) IN
      /\ g.w = sx * mW /\ g.h = sy * mH
      /\ \A x \in 0 .. g.w - 1, y \in 0 .. g.h - 1 : Dot(g, x, y) = Dot(One, x \div sx, y \div sy)
(* two layers of one picture: the second covers the first where it has ink *)
Layers == (mG # NoPic /\ mF = "raster" /\ Len(mD) % 2 = 0 /\ mH % 2 = 0) =>
    LET half == Len(mD) \div 2  h == mH \div 2
        a == Take(mD, half)  b == Tail2(mD, half)
        g == RasterLayers(mW, h, 2, <<50>> \o a \o <<51>> \o b)
        ga == RasterImage(mW, h, 1, 1, Red, "B", a)
        gb == RasterImage(mW, h, 1, 1, Blue, "B", b)
    IN \A i \in 1 .. mW * h : g.px[i] = IF gb.px[i] # 0 THEN gb.px[i] ELSE ga.px[i]
==============================================================================
