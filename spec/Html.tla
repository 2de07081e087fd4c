--------------------------------- MODULE Html ---------------------------------
(***************************************************************************)
(* The document of a receipt: what it shows, and where.                    *)
(*                                                                         *)
(* s.page    the page being composed (a desk of Receipt)                   *)
(* s.shown   what the receipt of this job shows so far, in stream order    *)
(* s.bottom  how far down it goes                                          *)
(* s.out     the receipts of the jobs that have ended                      *)
(*                                                                         *)
(* A document is a sequence of rows, one below the other; each is h high   *)
(* and m below (or, m < 0, above) the end of the one before, as a browser  *)
(* places them.  What a row shows is placed from its top.                  *)
(***************************************************************************)
EXTENDS Renderer
CONSTANT Glyph
R == INSTANCE Receipt WITH Glyph <- Glyph

Blank == [page |-> R!Desk, shown |-> <<>>, bottom |-> 0, out |-> <<>>]

(* ------------------------------ what is shown -------------------------- *)
Show1(s, x, bottom) == [s EXCEPT !.shown = @ \o x, !.bottom = Max2(@, bottom)]
(* what has no ink in the image is a space in the document *)
Readable(t) == [k \in DOMAIN t |-> IF R!NoInk(t[k]) THEN 32 ELSE t[k]]
(* in hundredths of a dot *)
SizeOf(f) == CASE f = "B" -> 1744 [] f = "C" -> 1417 [] OTHER -> 2180
(* lower letters stand on the line the highest stands on, about 78 of 100 down *)
Down(sp, mh) == LET n == 78 * (mh - sp.ch) IN {n \div 100, Sub0(n, 1) \div 100}
TextShown(sp, off, mh) ==
    [t |-> "text", x |-> sp.d[1] + off, y |-> {sp.d[2] + n : n \in Down(sp, mh)}, text |-> Readable(sp.t),
     fg |-> sp.fg, bg |-> sp.bg, b |-> sp.b, i |-> sp.i, u |-> sp.u > 0, s |-> sp.s > 0, size |-> SizeOf(sp.f),
     box |-> IF sp.ud THEN <<sp.sw, -sp.sh, 0, 100 * sp.sh>> ELSE <<sp.sw, sp.sh, 0, 0>>]
PictureShown(x, y, p) == [t |-> "picture", x |-> x, y |-> {y}, p |-> p]
CodeShown(rects, ink) == [t |-> "code", r |-> [k \in DOMAIN rects |-> rects[k] \o <<ink>>]]
Visible(rects) == SelectSeq(rects, LAMBDA q : q[3] > 0 /\ q[4] > 0)

HtmlAct(s, e) ==
    CASE e.e = "begin" -> [s EXCEPT !.page = R!Act(@, e), !.shown = <<>>, !.bottom = e.c.g.y]
      [] e.e = "end" -> [s EXCEPT !.out = Append(@, [h |-> Max2(s.bottom, e.c.g.y), shown |-> s.shown]),
                                  !.shown = <<>>, !.bottom = 0]
      [] e.e = "render_page" ->
           LET p == R!Pic!Turned(s.page.page, 4 - QuarterTurns(e.c.p.d))
           IN Show1(s, IF p.c = <<>> THEN <<>> ELSE <<PictureShown(e.c.g.x, e.c.g.y, p)>>, e.c.g.y + p.h)
      [] e.e \in {"text", "image", "gfx"} /\ ~e.c.p.en ->
           (CASE e.e = "text" ->
                  LET some == SelectSeq(e.s, LAMBDA sp : sp.t # <<>>) IN
                  Show1(s, [k \in DOMAIN some |-> TextShown(some[k], e.off, e.mh)],
                        FoldLeft(LAMBDA n, sp : Max2(n, sp.d[2] + e.mh), 0, e.s))
              [] e.e = "image" ->
                  Show1(s, IF e.w = 0 \/ e.h = 0 THEN <<>> ELSE <<PictureShown(e.x, e.y, R!ImagePicture(e))>>, e.y + e.h)
              [] OTHER ->
                  Show1(s, IF Visible(e.r) = <<>> THEN <<>> ELSE <<CodeShown(Visible(e.r), R!CodeInk(e.c))>>,
                        FoldLeft(LAMBDA n, q : Max2(n, q[2] + q[4]), 0, e.r)))
      [] OTHER -> [s EXCEPT !.page = R!Act(@, e)]
ShowAll(s, events) == FoldLeft(HtmlAct, s, events)

(* --------------------------- a document as read ------------------------ *)
(* Margins that touch become one: the largest of those below 0 and the     *)
(* largest of the others together.  Those above and below a row without    *)
(* height touch, unless the row keeps them apart.                          *)
Place1(a, row) ==
    LET up == Max2(a.up, row.m)  down == Min2(a.down, row.m)  y == a.y + up + down
        one(it) == CASE it.t = "text" -> [t |-> "text", x |-> it.left, y |-> y + it.top] @@ it
                     [] it.t = "picture" -> [t |-> "picture", x |-> it.left, y |-> y + it.top, p |-> it]
                     [] it.t = "code" -> [t |-> "code",
                                          whole |-> \A q \in {it.r[k] : k \in DOMAIN it.r} : q[1] + q[3] <= it.w /\ q[2] + q[4] <= it.h,
                                          r |-> Visible([k \in DOMAIN it.r |->
                                                  <<it.left + it.r[k][1], y + it.top + it.r[k][2]>> \o SubSeq(it.r[k], 3, 5)])]
                     [] OTHER -> it
        shown == SelectSeq([k \in DOMAIN row.items |-> one(row.items[k])],
                           LAMBDA it : ~(it.t = "code" /\ it.r = <<>>) /\ ~(it.t = "text" /\ it.text = <<>>))
    IN [shown |-> a.shown \o shown] @@
       (IF row.h = 0 /\ ~row.apart THEN [y |-> a.y, up |-> up, down |-> down]
        ELSE [y |-> y + row.h, up |-> 0, down |-> 0])
Placed(rows) == FoldLeft(Place1, [y |-> 0, up |-> 0, down |-> 0, shown |-> <<>>], rows)

(* ------------------------------ comparison ----------------------------- *)
(* <<>> or what is wrong, what it is, what it should be *)
Field(name, want, got) == IF want = got THEN <<>> ELSE <<name, want, got>>
First(fs) == LET bad == SelectSeq(fs, LAMBDA f : f # <<>>) IN IF bad = <<>> THEN <<>> ELSE bad[1]
AsRead(g) == [w |-> g.w, h |-> g.h, grow |-> FALSE, xs |-> g.xs, ys |-> g.ys,
            c |-> [k \in DOMAIN g.c |-> IF g.c[k] = -1 THEN Paper ELSE g.c[k]]]
OnPaper(p) == R!Pic!Recoloured(p, LAMBDA v : IF v = R!Pic!Clear THEN Paper ELSE v)
PictureDiffers(want, got) ==
    IF want.w # got.w \/ want.h # got.h THEN <<"size of a picture", <<want.w, want.h>>, <<got.w, got.h>>>>
    ELSE IF \E k \in DOMAIN got.c : got.c[k] = -3 THEN <<"half transparent dots", <<>>, <<>>>>
    ELSE LET d == R!Pic!Differ(OnPaper(want), AsRead(got)) IN
         IF d = <<>> THEN <<>> ELSE <<"dot of a picture", <<d[1], d[2], d[3]>>, <<d[1], d[2], d[4]>>>>
Wrong(want, got) ==
    IF want.t # got.t THEN <<"kind", want.t, IF got.t = "odd" THEN <<got.what>> ELSE got.t>>
    ELSE IF want.t = "code"
         THEN First(<<Field("rectangles of a code", want.r, got.r),
                      Field("whole code in its drawing", TRUE, got.whole)>>)
    ELSE IF got.x # want.x THEN <<"x", want.x, got.x>>
    ELSE IF got.y \notin want.y THEN <<"y", want.y, got.y>>
    ELSE IF want.t = "picture" THEN PictureDiffers(want.p, got.p)
    ELSE First(<<Field("text", want.text, got.text), Field("ink", want.fg, got.fg),
                 Field("ground", want.bg, IF got.bg = -1 THEN Paper ELSE got.bg),
                 Field("bold", want.b, got.b), Field("italic", want.i, got.i), Field("underlined", want.u, got.u),
                 Field("struck through", want.s, got.s), Field("size of letters", want.size, got.size),
                 Field("stretch", want.box, got.box), Field("spaces kept", TRUE, got.pre),
                 Field("order of letters kept", TRUE, got.order), Field("one width", TRUE, got.mono)>>)
DocWrong(want, doc) ==
    LET p == Placed(doc.rows)
        n == Min2(Len(want.shown), Len(p.shown))
        bad == {k \in 1 .. n : Wrong(want.shown[k], p.shown[k]) # <<>>}
    IN IF bad # {} THEN LET k == CHOOSE x \in bad : \A y \in bad : x <= y
                        IN Wrong(want.shown[k], p.shown[k]) \o <<k>>
       ELSE IF Len(p.shown) # Len(want.shown) THEN <<"things shown", Len(want.shown), Len(p.shown), n + 1>>
       ELSE LET f == First(<<Field("width of the paper", PaperWidth, doc.w),
                             Field("left margin", (PaperWidth - PrintWidth) \div 2, doc.left),
                             Field("colour of the paper", Paper, doc.back),
                             Field("length of the paper", want.h, p.y + doc.pb + Max2(0, p.up + p.down))>>)
            IN IF f = <<>> THEN <<>> ELSE f \o <<0>>
==============================================================================
