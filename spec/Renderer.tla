------------------------------ MODULE Renderer -------------------------------
(***************************************************************************)
(* What the renderer does with each item of a stream.                      *)
(*                                                                         *)
(* r.c   the context                                                       *)
(* r.sp  text received and not printed yet                                 *)
(* r.ev  what the output was told, each with the context it was told in    *)
(* r.er  errors reported                                                   *)
(* r.no  outputs finished                                                  *)
(***************************************************************************)
EXTENDS Layout, Barcodes, Parser

Start == [c |-> PowerOn, sp |-> <<>>, ev |-> <<>>, er |-> <<>>, no |-> 0]

Tell(r, e) == [r EXCEPT !.ev = Append(@, e @@ [c |-> r.c])]
With(r, c) == [r EXCEPT !.c = c]
Blame(r, k, m, d) == [r EXCEPT !.er = Append(@, <<k, m, d>>)]

(* ---------------------------------- text ------------------------------- *)
Collect(r, s) == [r EXCEPT !.sp = Append(@, s)]
(* Print the text received so far.  Lines are told after all are placed.   *)
Flush(r) ==
    IF r.sp = <<>> THEN r
    ELSE LET a == LayoutOf(r.c, r.sp)
             r1 == [r EXCEPT !.c = a.c, !.sp = <<>>]
         IN FoldLeft(LAMBDA q, l : Tell(q, [e |-> "text", s |-> l, off |-> LineOffset(a.c, l),
                                            mh |-> LineHeight(l), j |-> l[1].j]),
                     r1, a.lines)

TextOf(c, n, r) ==
    CASE n = "LF" -> <<LF>> [] n = "HT" -> <<HT>> [] n = "CR" -> <<CR>>
      [] OTHER -> DecodeText(c.t.ct, c.t.cs, r)

(* ----------------------------- device commands ------------------------- *)
Dev(r, d) ==
    LET t == Tell(r, [e |-> "dev", d |-> d])
        c == r.c
    IN CASE d[1] = "BeginPrint" -> Tell(With(t, NewLine(c, 2)), [e |-> "begin"])
         [] d[1] = "EndPrint" -> [Tell(t, [e |-> "end"]) EXCEPT !.no = @ + 1]
         [] d[1] = "FeedLine" -> With(t, IF d[2] < 0 THEN ReverseLines(c, -d[2]) ELSE NewLine(c, d[2]))
         [] d[1] = "Feed" -> With(t, Feed(c, d[2]))
         [] d[1] \in {"FullCut", "PartialCut"} -> With(t, NewLine(c, 2))
         [] d[1] = "Justify" -> With(t, [c EXCEPT !.t.j = d[2]])
         [] d[1] = "SetTextWidth" -> With(t, [c EXCEPT !.t.wm = d[2]])
         [] d[1] = "SetTextHeight" -> With(t, [c EXCEPT !.t.hm = d[2]])
         [] d[1] = "ChangeTabs" ->
              With(t, IF d[3] < Len(c.t.tabs) THEN [c EXCEPT !.t.tabs[d[3] + 1] = d[2]] ELSE c)
         [] d[1] = "BeginPageMode" ->
              Tell(With(t, [c EXCEPT !.p = [DefaultP EXCEPT !.en = TRUE]]), [e |-> "page_begin"])
         [] d[1] = "EndPageMode" ->
              LET u == Tell(t, [e |-> "page_end"]) IN With(u, [c EXCEPT !.p.en = FALSE])
         [] d[1] = "PrintPageMode" ->
              LET u == Tell(t, [e |-> "render_page"])
              IN With(u, [c EXCEPT !.g.y = @ + UprightHeight(c.p), !.g.x = 0])
         [] d[1] \in {"ChangePageArea", "ChangePageModeDirection"} ->
              LET p0 == IF d[1] = "ChangePageArea" THEN [c.p EXCEPT !.pd = c.p.d] ELSE c.p
                  p == LayPage(p0)
              IN Tell(With(t, [c EXCEPT !.p = p]),
                      [e |-> "area", rot |-> RotationBetween(p0.pd, p0.d), w |-> p.pa[3], h |-> p.pa[4]])
         [] d[1] = "ClearBufferGraphics" -> With(t, [c EXCEPT !.s.bf = <<>>])
         [] OTHER -> t
Devs(r, ds) == FoldLeft(Dev, r, ds)

JustifyOf(n) == CASE n \in {1, 49} -> "C" [] n \in {2, 50} -> "R" [] OTHER -> "L"
CutsOf(r) ==
    LET m == Opd(r, 0, 0)  feed == <<"Feed", Opd(r, 1, 0)>>
    IN CASE m \in {0, 48} -> << <<"FullCut">> >>
         [] m \in {1, 49} -> << <<"PartialCut">> >>
         [] m \in {65, 97, 103} -> << <<"FullCut">>, feed >>
         [] m \in {66, 98, 104} -> << <<"PartialCut">>, feed >>
         [] OTHER -> <<>>
(* what the device is told by command n with operands r, in context c *)
DevsOf(c, n, r) ==
    LET a == Opd(r, 0, 0) IN
    CASE n = "CAN @" -> << <<"Cancel">> >>
      [] n = "ESC @" -> << <<"Initialize">> >>
      [] n = "ESC d" -> << <<"FeedLine", a>> >>
      [] n = "ESC e" -> << <<"FeedLine", -a>> >>
      [] n = "ESC J" -> << <<"Feed", a>> >>
      [] n = "ESC a" -> << <<"Justify", JustifyOf(a)>> >>
      [] n = "GS !"  -> << <<"SetTextWidth", ((a \div 16) % 8) + 1>>, <<"SetTextHeight", (a % 8) + 1>> >>
      [] n = "ESC D" -> << <<"ChangeTabs", Opd(r, 0, 24), Opd(r, 1, 24)>> >>
      [] n = "GS V"  -> CutsOf(r)
      [] n = "ESC L" -> << <<"BeginPageMode">> >>
      [] n = "ESC W" -> << <<"ChangePageArea">> >>
      [] n = "ESC T" -> << <<"ChangePageModeDirection">> >>
      [] n = "ESC FF" -> IF c.p.en THEN << <<"PrintPageMode">> >> ELSE <<>>
      [] n = "FF" -> IF c.p.en THEN << <<"EndPageMode">>, <<"PrintPageMode">> >>
                     ELSE << <<"EndPrint">> >>
      [] OTHER -> <<>>

(* -------------------------------- settings ----------------------------- *)
Signed16(n) == IF n >= 32768 THEN n - 65536 ELSE n
Apply(c, n, r) ==
    CASE n = "ESC @" -> Reset(c)
      [] n = "ESC $" -> PlaceX(c, U16(r, 0))
      [] n = "GS $" -> PlaceY(c, U16(r, 0))
      [] n = "GS \\" -> ShiftY(c, Signed16(U16(r, 0)))
      [] n = "GS P" -> [c EXCEPT !.g = MotionUnits(@, r)]
      [] n \in {"GS h", "GS w", "GS H", "GS f"} -> [c EXCEPT !.b = BarcodeStyle(@, n, r)]
      [] n = "ESC W" -> SetArea(c, r)
      [] n = "ESC T" -> SetDirection(c, Opd(r, 0, 0))
      [] n = "ESC S" -> [c EXCEPT !.p.en = FALSE]
      [] n \in {"GS P", "ESC L", "GS ( G"} -> c
      [] OTHER -> [c EXCEPT !.t = TextStyle(@, n, r)]
ApplyGfx(c, fn, d) ==
    IF fn \in {1, 49} THEN [c EXCEPT !.g = DotDensity(@, d)]
    ELSE [c EXCEPT !.s = StoreGraphics(@, fn, d)]

(* -------------------------------- graphics ----------------------------- *)
DrawImage(r, g) ==
    LET c1 == IF g.flow = "I" /\ g.w > Avail(r.c) THEN NewLine(r.c, 1)
              ELSE IF g.flow = "B" /\ ~r.c.p.en THEN SetX(r.c, JustifyAt(r.c, g.w))
              ELSE r.c
        t == Tell(With(r, c1), [e |-> "image"] @@ [g EXCEPT !.x = X(c1), !.y = Y(c1)])
    IN With(t, IF g.flow = "I" THEN MoveX(c1, g.w)
               ELSE IF g.flow = "B" /\ ~c1.p.en THEN ResetX(MoveY(c1, g.h))
               ELSE c1)

PrintHri(r, text) ==
    LET f == Flush(Collect(r, text)) IN With(f, NewLine(f.c, 1))
(* A bar that has no room is left out and takes no room *)
DrawBarcode(r0, bits, text) ==
    LET hri == r0.c.b.hri
        r == IF hri \in {"A", "AB"} THEN PrintHri(r0, text) ELSE r0
        w == r.c.b.w  h == r.c.b.h
        start == SetX(r.c, JustifyAt(r.c, Len(bits) * w))
        step(a, b) == IF b = 1 /\ Avail(a.c) < w THEN a
                      ELSE [c |-> MoveX(a.c, w),
                            rects |-> IF b = 1 THEN Append(a.rects, <<X(a.c), Y(a.c), w, h>>) ELSE a.rects]
        a == FoldLeft(step, [c |-> start, rects |-> <<>>], bits)
        t == Tell(With(r, a.c), [e |-> "gfx", r |-> a.rects])
        u == With(t, MoveY(ResetX(a.c), h))
    IN IF hri \in {"B", "AB"} THEN PrintHri(With(u, MoveY(u.c, 8)), text) ELSE u

(* sym: <<modules in a row, modules, module width, module height>>.  A      *)
(* module that has no room is left out, the others stay in place.          *)
DrawCode2D(r, sym, pts) ==
    LET w == sym[1]  n == sym[2]  pw == sym[3]  ph == sym[4]
        start == SetX(r.c, JustifyAt(r.c, w * pw))
        x0 == X(start)  y0 == Y(start)  room == Avail(start)
        dark == SelectSeq([k \in 1 .. n |-> k - 1],
                          LAMBDA k : pts[k + 1] > 0 /\ Sub0(room, (k % w) * pw) >= pw)
        rects == [k \in DOMAIN dark |-> <<x0 + (dark[k] % w) * pw, y0 + (dark[k] \div w) * ph, pw, ph>>]
        c1 == MoveY(ResetX(start), ((n - 1) \div w + 1) * ph)
    IN Tell(With(r, c1), [e |-> "gfx", r |-> rects])

Utf8ErrorText == <<91, 69, 114, 114, 111, 114, 32, 112, 97, 114, 115, 105, 110, 103, 32, 100, 97, 116,
                   97, 32, 97, 115, 32, 117, 116, 102, 56, 93>>     \* [Error parsing data as utf8]
Draw(r, g) ==
    CASE g.g = "image" -> DrawImage(r, g)
      [] g.g = "barcode" -> DrawBarcode(r, g.bits, BarcodeSpan(r.c, g.text))
      [] g.g = "code2d" -> DrawCode2D(r, g.sym, g.pts)
      [] g.g = "error" -> Blame(r, "G", g.m, IF "d" \notin DOMAIN g THEN <<>>
                                            ELSE IF g.bad THEN Utf8ErrorText ELSE g.d)
      [] OTHER -> r
Nothing == [g |-> "none"]
BarcodeData(r) ==      \* the data among the operands of GS k
    IF r = <<>> THEN <<>> ELSE Emit(IdxOf[<<GS, 107>>], r)[1].d
StoredGfx(s, area, d) ==
    IF Len(d) < 2 \/ <<area, d[1], d[2]>> \notin DOMAIN s.st THEN Nothing
    ELSE LET times(n) == IF n = 2 THEN 2 ELSE 1      \* double width or height, else as it is
         IN Enlarged(s.st[<<area, d[1], d[2]>>], times(Opd(d, 2, 1)), times(Opd(d, 3, 1)))

(* ------------------------------ whole items ---------------------------- *)
HexDigit == <<"0","1","2","3","4","5","6","7","8","9","A","B","C","D","E","F">>
Hex(b) == HexDigit[b \div 16 + 1] \o HexDigit[(b % 16) + 1]
UnknownText(d) ==
    IF d = <<>> THEN "Unknown Command"
    ELSE "Unknown Command [" \o FoldLeft(LAMBDA s, b : IF s = "" THEN Hex(b) ELSE s \o ", " \o Hex(b), "", d) \o "]"

IsSub(n) == n \in {"GS ( k", "GS ( L", "GS 8 L"}
(* the function of a subcommand with operands r (header and payload) *)
SubM(n, r) == r[IF n = "GS 8 L" THEN 5 ELSE 3]
SubFn(n, r) == r[IF n = "GS 8 L" THEN 6 ELSE 4]
SubData(n, r) == Tail2(r, IF n = "GS 8 L" THEN 6 ELSE 4)
IsQrStore(n, r) == n = "GS ( k" /\ SubM(n, r) = 49 /\ SubFn(n, r) = 80

(* hint: the symbol QR encoding yields, <<sym, pts>> - see QrCode *)
ExecSub(r0, n, op, hint) ==
    LET r == Flush(r0)  m == SubM(n, op)  fn == SubFn(n, op)  d == SubData(n, op)  c == r.c
    IN IF n = "GS ( k" THEN
            IF fn = 81 THEN      \* only QR codes are ever stored
               IF m # 49 THEN r
               ELSE IF c.q.sym # <<>> THEN DrawCode2D(r, c.q.sym, c.q.pts)
               ELSE Blame(r, "G", "QR Not setup properly", <<>>)
            ELSE IF IsQrStore(n, op) THEN With(r, [c EXCEPT !.q.sym = hint[1], !.q.pts = hint[2]])
            ELSE With(r, [c EXCEPT !.q = Code2DSetting(@, m, fn, d)])
       ELSE CASE fn \in {2, 50} ->
                    LET u == IF c.s.bf = <<>> THEN r ELSE Draw(r, MergeBuffer(c.s.bf))
                    IN Dev(u, <<"ClearBufferGraphics">>)
              [] fn = 69 -> Draw(r, StoredGfx(c.s, "D", d))
              [] fn = 85 -> Draw(r, StoredGfx(c.s, "R", d))
              [] OTHER -> With(r, ApplyGfx(c, fn, d))

(* The first command and the last one are there in every stream *)
ExecBegin(r) == Dev(r, <<"BeginPrint">>)
ExecEnd(r) == Dev(Flush(r), <<"EndPrint">>)

ExecText(r, n, op) == Collect(r, Span(r.c, TextOf(r.c, n, op)))
ExecUnknown(r, op) == Blame(Flush(r), "U", UnknownText(op), <<>>)
ExecControl(r, n, op) == Devs(Flush(r), DevsOf(r.c, n, op))
ExecContext(r, n, op) == LET f == Flush(r) IN With(f, Apply(f.c, n, op))
ExecContextControl(r, n, op) == LET s == ExecContext(r, n, op) IN Devs(s, DevsOf(s.c, n, op))
ExecStyle(r, n, op) == LET s == With(r, Apply(r.c, n, op)) IN Devs(s, DevsOf(s.c, n, op))
ExecGraphics(r, n, op) ==
    LET f == Flush(r)
    IN Draw(f, CASE n = "GS k" -> MakeBarcode(Opd(op, 0, 255), BarcodeData(op))
                 [] n = "ESC *" -> BitImageOf(op)
                 [] n = "GS v 0" -> RasterOf(op))

(* One item of a stream *)
Exec(r, it, hint) ==
    IF it.what = "text" THEN ExecText(r, "text", it.r)
    ELSE IF it.what = "unknown" THEN ExecUnknown(r, it.r)
    ELSE IF it.cmds[1].k = "Unknown" THEN ExecUnknown(r, it.cmds[1].d)
    ELSE LET n == Table[it.i].n  k == Table[it.i].k
         IN CASE k = "Text" -> ExecText(r, n, it.r)
              [] k = "Subcommand" ->
                   IF FnGfxKind(SubFn(n, it.r)) = "Control" /\ n # "GS ( k" THEN Flush(r)
                   ELSE IF n = "GS ( k" /\ SubFn(n, it.r) = 82 THEN Flush(r)
                   ELSE ExecSub(r, n, it.r, hint)
              [] k = "Control" -> ExecControl(r, n, it.r)
              [] k = "Context" -> ExecContext(r, n, it.r)
              [] k = "ContextControl" -> ExecContextControl(r, n, it.r)
              [] k = "TextStyle" -> ExecStyle(r, n, it.r)
              [] k = "Graphics" -> ExecGraphics(r, n, it.r)
============================================================================
