----------------------------- MODULE MC_Renderer -----------------------------
(***************************************************************************)
(* The printer under every sequence of at most Depth commands of an        *)
(* alphabet, with the guarantees stated independently of how Renderer      *)
(* computes: over the history of commands, and over what comes out.        *)
(***************************************************************************)
EXTENDS Renderer, Json

CONSTANTS Alphabet, Depth
VARIABLES mPrt,     \* the printer after the commands so far (r.ev: what the last one told)
          mPast,    \* the printer before the last command
          mHist,    \* the commands so far, as indices of Alphabet
          mInk,     \* the lowest row any block printed so far reaches (standard mode)
          mRot,     \* quarter turns of the page so far
          mJob      \* begins and ends told so far
vars == <<mPrt, mPast, mHist, mInk, mRot, mJob>>

Item(cmd) == ItemAt(cmd, 1)
Items == [a \in DOMAIN Alphabet |-> Item(Alphabet[a])]
ASSUME WholeItems == \A a \in DOMAIN Alphabet : Item(Alphabet[a]).next = Len(Alphabet[a]) + 1
NameOf(a) == IF Items[a].what = "command" THEN Table[Items[a].i].n ELSE Items[a].what
Operand(a) == Opd(Items[a].r, 0, 0)

Clean(r) == [r EXCEPT !.ev = <<>>, !.er = <<>>]
EventsOf(r, kind) == SelectSeq(r.ev, LAMBDA e : e.e = kind)
Bottom(e) ==     \* of what event e draws
    CASE e.e = "image" -> e.y + e.h
      [] e.e = "text" -> FoldLeft(LAMBDA n, sp : Max2(n, sp.d[2] + sp.ch), 0, e.s)
      [] e.e = "gfx" -> FoldLeft(LAMBDA n, q : Max2(n, q[2] + q[4]), 0, e.r)
      [] OTHER -> 0
TurnsOf(r) == FoldLeft(LAMBDA n, e : n + e.rot \div 90, 0, EventsOf(r, "area"))
Starts(r) == Len(EventsOf(r, "page_begin"))

Step(r, hist) ==
    /\ mPast' = Clean(mPrt) /\ mPrt' = TLCEval(r) /\ mHist' = hist
    /\ mInk' = IF mPrt.c.p.en THEN mInk ELSE FoldLeft(LAMBDA n, e : Max2(n, Bottom(e)), mInk, r.ev)
    /\ mRot' = IF Starts(r) > 0 THEN 0 ELSE (mRot + TurnsOf(r)) % 4
    /\ mJob' = <<mJob[1] + Len(EventsOf(r, "begin")), mJob[2] + Len(EventsOf(r, "end"))>>

MCInit ==
    LET r == ExecBegin(Start) IN
    mPrt = r /\ mPast = Start /\ mHist = <<>> /\ mInk = 0 /\ mRot = 0 /\ mJob = <<1, 0>>
(* In this model the symbol of some data is its first byte in bits, in two  *)
(* rows, and data that starts with a zero cannot be encoded                *)
IsStore(it) == it.what = "command" /\ it.cmds[1].k # "Unknown" /\ IsQrStore(Table[it.i].n, it.r)
SymbolOf(d, size) ==
    IF Opd(d, 1, 0) = 0 THEN << <<>>, <<>> >>
    ELSE << <<4, 8, size, size>>, [i \in 1 .. 8 |-> Bit(d[2], 8 - i)]>>
SymbolFor(it) == IF IsStore(it) THEN SymbolOf(SubData("GS ( k", it.r), mPrt.c.q.size) ELSE <<>>
(* runs of text are one item: never two in a row *)
MCNext ==
    \E a \in DOMAIN Alphabet :
      /\ Len(mHist) < Depth
      /\ ~(NameOf(a) = "text" /\ mHist # <<>> /\ NameOf(Last(mHist)) = "text")
      /\ Step(Exec(Clean(mPrt), Items[a], SymbolFor(Items[a])), Append(mHist, a))
MCSpec == MCInit /\ [][MCNext]_vars
MCView == <<mPrt, mHist, mInk, mRot, mJob>>

LastName == IF mHist = <<>> THEN "" ELSE NameOf(Last(mHist))
Ran(names) == mHist # <<>> /\ LastName \in names

(* ------------------------- C05: style of text --------------------------- *)
(* The last command of those names in the history, 0 if none *)
LastAt(names) ==
    LET hits == {k \in DOMAIN mHist : NameOf(mHist[k]) \in names}
    IN IF hits = {} THEN 0 ELSE CHOOSE k \in hits : \A h \in hits : h <= k
Decided(names, default, value(_, _)) ==
    LET k == LastAt(names \cup {"ESC @"})
    IN IF k = 0 THEN default
       ELSE IF NameOf(mHist[k]) = "ESC @" THEN default
       ELSE value(NameOf(mHist[k]), Operand(mHist[k]))
StyleByHistory ==
    LET t == mPrt.c.t IN
    /\ t.b = Decided({"ESC E", "ESC !"}, FALSE, LAMBDA m, x : IF m = "ESC !" THEN Bit(x, 3) = 1 ELSE Odd(x))
    /\ t.i = Decided({"ESC 4"}, FALSE, LAMBDA m, x : Odd(x))
    /\ t.u = Decided({"ESC -", "ESC !"}, 0,
                     LAMBDA m, x : IF m = "ESC !" THEN Bit(x, 6) ELSE CASE x \in {1, 49} -> 1 [] x \in {2, 50} -> 2 [] OTHER -> 0)
    /\ t.ud = Decided({"ESC {"}, FALSE, LAMBDA m, x : Odd(x))
    /\ t.inv = Decided({"GS B"}, FALSE, LAMBDA m, x : Odd(x))
    /\ t.wm = Decided({"GS !", "ESC !"}, 1, LAMBDA m, x : IF m = "ESC !" THEN 1 + Bit(x, 5) ELSE ((x \div 16) % 8) + 1)
    /\ t.hm = Decided({"GS !", "ESC !"}, 1, LAMBDA m, x : IF m = "ESC !" THEN 1 + Bit(x, 4) ELSE (x % 8) + 1)
    /\ <<t.cw, t.ch>> = Decided({"ESC M", "ESC !"}, <<12, 24>>,
                     LAMBDA m, x : IF (m = "ESC !" /\ Odd(x)) \/ (m = "ESC M" /\ FontOf(x) # "A") THEN <<9, 17>> ELSE <<12, 24>>)
    /\ t.j = Decided({"ESC a"}, "L", LAMBDA m, x : CASE x \in {1, 49} -> "C" [] x \in {2, 50} -> "R" [] OTHER -> "L")
    /\ t.ls = Decided({"ESC 2", "ESC 3"}, 24, LAMBDA m, x : IF m = "ESC 2" THEN 24 ELSE x)
(* Text waits with the style it was received in, whatever comes later *)
SpansKeepStyle ==
    [][ (mPrt.sp # <<>> /\ mPrt'.sp # <<>>) =>
        (Len(mPrt'.sp) >= Len(mPrt.sp) /\ SubSeq(mPrt'.sp, 1, Len(mPrt.sp)) = mPrt.sp) ]_vars
StyleNames == {"ESC !", "ESC E", "ESC 4", "ESC -", "ESC G", "ESC {", "ESC M", "ESC r", "GS B", "GS !", "GS b",
               "GS ( N", "ESC t", "ESC R", "ESC 2", "ESC 3", "ESC a", "ESC D", "ESC @"}
OthersKeepStyle == [][ NameOf(Last(mHist')) \notin StyleNames => mPrt'.c.t = mPrt.c.t ]_vars

(* ------------------------------ C06: reset ------------------------------ *)
AfterReset ==
    Ran({"ESC @"}) =>
      LET c == mPrt.c IN
      /\ c.g = [DefaultG EXCEPT !.y = c.g.y] /\ c.t = DefaultT /\ c.b = DefaultB /\ c.q = DefaultQ
      /\ c.p = DefaultP /\ c.s.bf = <<>>
      /\ DOMAIN c.s.st = {k \in DOMAIN mPast.c.s.st : k[1] = "D"}
      /\ \A k \in DOMAIN c.s.st : c.s.st[k] = mPast.c.s.st[k]
      /\ (mPast.sp = <<>> => c.g.y = mPast.c.g.y)      \* the paper stays where it is
      /\ mPrt.sp = <<>>

(* ------------------------------ C07: layout ----------------------------- *)
Lines == EventsOf(mPrt, "text")
TextIn(spans) == SelectSeq(FlattenSeq([k \in DOMAIN spans |-> spans[k].t]), LAMBDA x : x \notin {LF, HT})
TextOut(lines) == FlattenSeq([k \in DOMAIN lines |-> FlattenSeq([h \in DOMAIN lines[k].s |-> lines[k].s[h].t])])
NothingLost ==     \* no character lost, doubled or moved when the text is laid out
    (Lines # <<>> /\ LastName \notin {"GS k"}) => TextOut(Lines) = TextIn(mPast.sp)
RightEdge(c) == BaseX(c) + Width(c)
InsideLine ==      \* no character beyond the right edge, unless it is wider than the line
    \A k \in DOMAIN Lines : \A h \in DOMAIN Lines[k].s :
      LET sp == Lines[k].s[h]
      IN sp.d[1] + sp.d[3] <= RightEdge(mPast.c) \/ Len(sp.t) <= 1 \/ sp.d[1] > RightEdge(mPast.c)
LeftToRight ==     \* pieces of a line do not overlap; lines go down
    /\ \A k \in DOMAIN Lines : \A h \in 1 .. Len(Lines[k].s) - 1 :
         Lines[k].s[h].d[1] + Lines[k].s[h].d[3] <= Lines[k].s[h + 1].d[1]
    /\ \A k \in 1 .. Len(Lines) - 1 : Lines[k].s[1].d[2] < Lines[k + 1].s[1].d[2] \/ mPast.c.t.ls = 0
    /\ \A k \in DOMAIN Lines : \A h \in DOMAIN Lines[k].s : Lines[k].s[h].d[2] = Lines[k].s[1].d[2]
LineHeights ==     \* the next line starts below the tallest character
    \A k \in 1 .. Len(Lines) - 1 : \A h \in DOMAIN Lines[k].s :
      Lines[k + 1].s[1].d[2] >= Lines[k].s[h].d[2] + Lines[k].s[h].ch

(* --------------------------- C08: justification ------------------------- *)
Offsets ==
    \A k \in DOMAIN Lines :
      LET l == Lines[k]  w == LineWidth(l.s)  free == Sub0(Width(mPast.c), w)
      IN /\ l.j = l.s[1].j
         /\ CASE l.j = "L" -> l.off = 0
              [] l.j = "R" -> l.off + w = Max2(w, Width(mPast.c))
              [] l.j = "C" -> l.off \in {free \div 2} /\ (free - 2 * l.off) \in 0 .. 1
BlocksJustified ==
    \A k \in DOMAIN mPrt.ev :
      LET e == mPrt.ev[k] IN
      (e.e = "image" /\ e.flow = "B" /\ ~mPrt.c.p.en /\ e.w <= PrintWidth) =>
        CASE mPrt.c.t.j = "L" -> e.x = 0
          [] mPrt.c.t.j = "R" -> e.x + e.w = PrintWidth
          [] mPrt.c.t.j = "C" -> (PrintWidth - e.w - 2 * e.x) \in 0 .. 1

(* -------------------------- C09: paper position ------------------------- *)
(* Standard mode: the paper only goes back for ESC e, and by its lines *)
PaperForward ==
    [][ mPrt'.c.g.y >= mPrt.c.g.y \/ NameOf(Last(mHist')) = "ESC e" ]_vars
BackByLines ==
    Ran({"ESC e"}) => mPrt.c.g.y >= 0 /\ (mPast.sp = <<>> => mPast.c.g.y - mPrt.c.g.y <= mPast.c.t.ls * Operand(Last(mHist)))
(* Blocks do not overprint what came before, unless the paper went back or  *)
(* a line was left without its line feed, or the text under a barcode is    *)
(* taller than a line                                                       *)
NeverBack ==
    /\ ~\E k, h \in DOMAIN mHist : NameOf(mHist[k]) = "GS H" /\ NameOf(mHist[h]) = "GS !"
    /\ \A k \in DOMAIN mHist :
      /\ NameOf(mHist[k]) \notin {"ESC e", "ESC *"}
      /\ NameOf(mHist[k]) = "text" => k < Len(mHist) /\ NameOf(mHist[k + 1]) = "LF"
StartsBelow ==
    [][ (~mPrt.c.p.en /\ NameOf(Last(mHist')) \in {"GS v 0", "GS k"} /\ NeverBack /\ mPrt.c.g.x = 0)
        => \A k \in DOMAIN mPrt'.ev : mPrt'.ev[k].e = "image" => mPrt'.ev[k].y >= mInk ]_vars

(* ----------------------------- C10: page mode --------------------------- *)
PageTurns == mPrt.c.p.en => mRot = QuarterTurns(mPrt.c.p.d)
LastAreaInside ==     \* the print area lies on the page
    Ran({"ESC W", "ESC T"}) /\ mPrt.c.p.en =>
      LET p == mPrt.c.p IN p.ra[1] + p.ra[3] <= p.pa[3] /\ p.ra[2] + p.ra[4] <= p.pa[4]
PageKeepsPaper ==     \* nothing done on a page moves the paper until it is printed
    [][ (mPrt.c.p.en /\ mPrt'.c.p.en /\ NameOf(Last(mHist')) \notin {"ESC FF", "FF", "ESC @"})
        => <<mPrt'.c.g.x, mPrt'.c.g.y>> = <<mPrt.c.g.x, mPrt.c.g.y>> ]_vars
PagePrinted ==        \* printing it moves the paper by its height
    [][ (mPrt.c.p.en /\ NameOf(Last(mHist')) \in {"ESC FF", "FF"})
        => mPrt'.c.g.y = mPrt.c.g.y + (IF Turned(mPrt.c.p.d) THEN mPrt.c.p.pa[3] ELSE mPrt.c.p.pa[4]) ]_vars
(* the page never shrinks while it is being made *)
PageGrows ==
    [][ (mPrt.c.p.en /\ mPrt'.c.p.en /\ NameOf(Last(mHist')) # "ESC L") =>
        LET up(p) == IF Turned(p.d) THEN <<p.pa[4], p.pa[3]>> ELSE <<p.pa[3], p.pa[4]>>
        IN up(mPrt.c.p)[1] <= up(mPrt'.c.p)[1] /\ up(mPrt.c.p)[2] <= up(mPrt'.c.p)[2] ]_vars

(* ------------------------- C14: stored graphics ------------------------- *)
(* What is under a key is the last picture defined there since the last     *)
(* command that removes it; the two areas do not see one another            *)
StoreOf(fn) == CASE fn \in {65, 66, 67, 68} -> "D" [] fn \in {81, 82, 83, 84} -> "R" [] OTHER -> ""
FnOf(a) == IF NameOf(a) \in {"GS ( L", "GS 8 L"} THEN SubFn(NameOf(a), Items[a].r) ELSE 0
DataOf(a) == SubData(NameOf(a), Items[a].r)
KeyOf(a) == LET d == DataOf(a) IN IF FnOf(a) \in {66, 82} THEN <<StoreOf(FnOf(a)), d[1], d[2]>> ELSE <<StoreOf(FnOf(a)), d[2], d[3]>>
Defines(a, k) == FnOf(a) \in {67, 68, 83, 84} /\ KeyOf(a) = k
Removes(a, k) == \/ FnOf(a) = 65 /\ k[1] = "D"
                 \/ FnOf(a) = 81 /\ k[1] = "R"
                 \/ FnOf(a) \in {66, 82} /\ KeyOf(a) = k
                 \/ NameOf(a) = "ESC @" /\ k[1] = "R"
Keys == {KeyOf(a) : a \in {x \in DOMAIN Alphabet : FnOf(x) \in {67, 68, 83, 84}}}
StoreByHistory ==
    \A k \in Keys :
      LET hits == {h \in DOMAIN mHist : Defines(mHist[h], k) \/ Removes(mHist[h], k)}
          last == CHOOSE h \in hits : \A o \in hits : o <= h
          a == mHist[last]
      IN IF hits = {} THEN k \notin DOMAIN mPrt.c.s.st
         ELSE IF Removes(a, k) THEN k \notin DOMAIN mPrt.c.s.st
         ELSE k \in DOMAIN mPrt.c.s.st /\
              mPrt.c.s.st[k] = (IF FnOf(a) \in {67, 83} THEN NamedRaster(DataOf(a)) ELSE NamedColumn(DataOf(a)))
ShownIsStored ==      \* printing a stored picture prints it, and keeps it
    Ran({"GS ( L", "GS 8 L"}) /\ FnOf(Last(mHist)) \in {69, 85} =>
      LET k == <<IF FnOf(Last(mHist)) = 69 THEN "D" ELSE "R", DataOf(Last(mHist))[1], DataOf(Last(mHist))[2]>>
          shown == EventsOf(mPrt, "image")
      IN /\ mPrt.c.s = mPast.c.s
         /\ IF k \in DOMAIN mPast.c.s.st /\ mPast.c.s.st[k].g = "image"
            THEN LET g == mPast.c.s.st[k]  d == DataOf(Last(mHist))
                 IN /\ Len(shown) = 1 /\ shown[1].w = g.w * d[3] /\ shown[1].h = g.h * d[4]
                    \* every dot of it, and each as often as the others
                    /\ \A i \in DOMAIN g.px :
                         \A dx \in 0 .. d[3] - 1, dy \in 0 .. d[4] - 1 :
                            shown[1].px[(((i - 1) \div g.w) * d[4] + dy) * shown[1].w
                                        + ((i - 1) % g.w) * d[3] + dx + 1] = g.px[i]
            ELSE shown = <<>>
BufferPrintedOnce ==
    Ran({"GS ( L", "GS 8 L"}) /\ FnOf(Last(mHist)) \in {2, 50} =>
      /\ mPrt.c.s.bf = <<>> /\ mPrt.c.s.st = mPast.c.s.st
      /\ Len(EventsOf(mPrt, "image")) <= 1
      /\ (mPast.c.s.bf = <<>> => EventsOf(mPrt, "image") = <<>>)

(* -------------------- C16: two dimensional codes in order --------------- *)
CodeFn(a) == IF NameOf(a) = "GS ( k" THEN <<SubM("GS ( k", Items[a].r), SubFn("GS ( k", Items[a].r)>> ELSE <<0, 0>>
LastFn(fns) ==      \* the last command in the history that is one of those, 0 if none since ESC @
    LET hits == {k \in DOMAIN mHist : CodeFn(mHist[k]) \in fns \/ NameOf(mHist[k]) = "ESC @"}
        last == CHOOSE k \in hits : \A h \in hits : h <= k
    IN IF hits = {} THEN 0 ELSE IF NameOf(mHist[last]) = "ESC @" THEN 0 ELSE last
SizeBefore(k) ==    \* the module size that is set when the k-th command comes
    LET hits == {h \in 1 .. k - 1 : CodeFn(mHist[h]) = <<49, 67>> \/ NameOf(mHist[h]) = "ESC @"}
        last == CHOOSE h \in hits : \A o \in hits : o <= h
    IN IF hits = {} THEN 3 ELSE IF NameOf(mHist[last]) = "ESC @" THEN 3 ELSE Opd(SubData("GS ( k", Items[mHist[last]].r), 0, 1)
PrintedIsStored ==
    Ran({"GS ( k"}) /\ CodeFn(Last(mHist))[2] = 81 =>
      LET st == LastFn({<<49, 80>>})
          want == IF st = 0 THEN << <<>>, <<>> >> ELSE SymbolOf(SubData("GS ( k", Items[mHist[st]].r), SizeBefore(st))
          shown == EventsOf(mPrt, "gfx")  size == want[1][3]
      IN IF CodeFn(Last(mHist))[1] # 49 THEN shown = <<>> /\ mPrt.er = <<>>
         ELSE IF want[1] = <<>> THEN shown = <<>> /\ Len(mPrt.er) = 1
         ELSE /\ Len(shown) = 1 /\ mPrt.er = <<>>
              /\ Len(shown[1].r) = Len(SelectSeq(want[2], LAMBDA b : b = 1))
              /\ \A i \in DOMAIN shown[1].r : shown[1].r[i][3] = size /\ shown[1].r[i][4] = size
              /\ \A i, k \in DOMAIN shown[1].r : i # k => shown[1].r[i] # shown[1].r[k]
              /\ mPast.sp = <<>> => Y(mPrt.c) = Y(mPast.c) + 2 * size
SettingsByHistory ==
    LET lv == LastFn({<<49, 69>>})  md == LastFn({<<49, 65>>})
        op(k) == Opd(SubData("GS ( k", Items[mHist[k]].r), 0, 0)
    IN /\ mPrt.c.q.ec = (IF lv = 0 THEN "L" ELSE <<"L", "M", "Q", "H">>[(op(lv) % 48) + 1])
       /\ mPrt.c.q.model = (IF md = 0 THEN 1 ELSE op(md) - 48)
       /\ mPrt.c.q.size = SizeBefore(Len(mHist) + 1)

(* -------------------------------- C21: jobs ----------------------------- *)
OneJob == mJob[1] = 1 /\ (mJob[2] > 0 => \E k \in DOMAIN mHist : NameOf(mHist[k]) = "FF")
EndsOnce == LET r == ExecEnd(Clean(mPrt)) IN
            Len(EventsOf(r, "end")) = 1 /\ Last(r.ev).e = "end" /\ r.no = mPrt.no + 1 /\ r.sp = <<>>

(* ------------------------- behaviours for replay ------------------------ *)
(* The longest histories, as streams for the implementation *)
Told == Len(mHist) = Depth => PrintT("@@" \o ToJson(FlattenSeq([k \in DOMAIN mHist |-> Alphabet[mHist[k]]])))

(* ------------------------------- alphabets ------------------------------ *)

Txt == <<97, 98>>
StyleAlphabet == <<
  Txt, <<LF>>, <<ESC, 33, 8>>, <<ESC, 33, 113>>, <<ESC, 69, 1>>, <<ESC, 69, 2>>, <<ESC, 52, 1>>, <<ESC, 45, 2>>, <<ESC, 45, 48>>,
  <<ESC, 71, 1>>, <<ESC, 71, 0>>, <<ESC, 123, 1>>, <<ESC, 77, 1>>, <<ESC, 77, 48>>, <<ESC, 114, 1>>, <<GS, 66, 1>>, <<GS, 66, 0>>,
  <<GS, 33, 17>>, <<GS, 33, 0>>, <<GS, 40, 78, 2, 0, 48, 50>>, <<GS, 40, 78, 2, 0, 49, 51>>, <<ESC, 64>>, <<ESC, 97, 1>>,
  <<ESC, 51, 60>>, <<GS, 118, 48, 0, 1, 0, 1, 0, 255>> >>
Pic(fn, k, x) == <<GS, 40, 76, 12, 0, 48, fn, 48, 65, k, 1, 8, 0, 1, 0, 49, x>>
ResetAlphabet == <<
  Txt, <<ESC, 64>>, <<ESC, 69, 1>>, <<ESC, 97, 2>>, <<ESC, 51, 10>>, <<ESC, 68, 3, 1>>, <<ESC, 116, 2>>, <<ESC, 82, 1>>, <<GS, 33, 34>>,
  <<ESC, 100, 3>>, <<ESC, 36, 50, 0>>, <<GS, 80, 100, 100>>, <<ESC, 76>>, <<ESC, 87, 1, 0, 2, 0, 90, 0, 80, 0>>, <<ESC, 84, 1>>,
  <<GS, 104, 9>>, <<GS, 119, 5>>, <<GS, 72, 3>>, <<GS, 40, 107, 3, 0, 49, 67, 9>>, <<GS, 40, 107, 3, 0, 49, 69, 50>>,
  Pic(67, 65, 170), Pic(83, 65, 85), <<GS, 40, 76, 11, 0, 48, 112, 48, 1, 1, 49, 8, 0, 1, 0, 7>>, <<GS, 40, 76, 4, 0, 48, 49, 51, 51>> >>
LayoutAlphabet == <<
  Txt, Rep(99, 30), Rep(100, 52), <<32>>, <<101, 32, 102, 102>>, Rep(103, 24) \o <<32>> \o Rep(104, 26), <<LF>>, <<HT>>, <<CR>>,
  <<GS, 33, 17>>, <<GS, 33, 112>>, <<ESC, 36, 88, 2>>, <<ESC, 36, 100, 0>>, <<ESC, 51, 30>>, <<ESC, 77, 1>> >>
JustifyAlphabet == <<
  <<ESC, 97, 0>>, <<ESC, 97, 1>>, <<ESC, 97, 50>>, Txt, Rep(99, 49), <<101, 32>> \o Rep(102, 55), <<LF>>, <<GS, 33, 16>>,
  <<GS, 118, 48, 0, 2, 0, 1, 0, 255, 1>>, <<GS, 118, 48, 3, 1, 0, 1, 0, 255>>, <<GS, 107, 5, 49, 50, 51, 52, 0>>, <<ESC, 42, 0, 1, 0, 255>>, <<ESC, 64>> >>
PaperAlphabet == <<
  Txt, <<LF>>, <<ESC, 100, 2>>, <<ESC, 101, 3>>, <<ESC, 101, 1>>, <<ESC, 74, 7>>, <<ESC, 51, 40>>, <<ESC, 50>>, <<GS, 86, 0>>, <<GS, 86, 66, 9>>,
  <<GS, 118, 48, 0, 1, 0, 2, 0, 255, 1>>, <<GS, 107, 5, 49, 50, 51, 52, 0>>, <<GS, 72, 2>>, <<GS, 33, 51>>, <<ESC, 42, 1, 1, 0, 255>>, <<ESC, 64>>,
  <<ESC, 36, 20, 0>>, Rep(97, 60) >>
PageAlphabet == <<
  <<ESC, 76>>, <<ESC, 83>>, <<ESC, FF>>, <<FF>>, <<ESC, 87, 3, 0, 5, 0, 90, 0, 60, 0>>, <<ESC, 87, 0, 0, 0, 0, 200, 0, 20, 0>>,
  <<ESC, 84, 0>>, <<ESC, 84, 1>>, <<ESC, 84, 2>>, <<ESC, 84, 51>>, Txt, <<LF>>, <<ESC, 36, 30, 0>>, <<GS, 36, 9, 0>>, <<GS, 92, 250, 255>>,
  <<GS, 118, 48, 0, 1, 0, 2, 0, 255, 1>>, <<ESC, 64>> >>
StoreAlphabet == <<
  Pic(67, 65, 170), Pic(67, 65, 1), Pic(67, 66, 2), Pic(83, 65, 3), <<GS, 40, 76, 19, 0, 48, 84, 48, 65, 66, 1, 8, 0, 8, 0, 50, 1, 2, 3, 4, 5, 6, 7, 8>>,
  <<GS, 40, 76, 4, 0, 48, 66, 65, 65>>, <<GS, 40, 76, 4, 0, 48, 82, 65, 65>>, <<GS, 40, 76, 5, 0, 48, 65, 67, 76, 82>>, <<GS, 40, 76, 5, 0, 48, 81, 67, 76, 82>>,
  <<GS, 40, 76, 6, 0, 48, 69, 65, 65, 1, 1>>, <<GS, 40, 76, 6, 0, 48, 85, 65, 65, 1, 1>>, <<GS, 40, 76, 6, 0, 48, 85, 65, 66, 2, 1>>, <<GS, 40, 76, 6, 0, 48, 69, 65, 66, 1, 2>>, <<ESC, 64>>,
  <<GS, 40, 76, 11, 0, 48, 112, 48, 1, 1, 49, 8, 0, 1, 0, 7>>, <<GS, 40, 76, 2, 0, 48, 50>>, Pic(68, 66, 9) >>
Code(m, fn, d) == <<GS, 40, 107, Len(d) + 2, 0, m, fn>> \o d
CodesAlphabet == <<
  Code(49, 80, <<48, 65>>), Code(49, 80, <<48, 0, 255, 65, 66, 67, 68, 200, 201, 202, 203, 204, 205, 206, 207>>), Code(49, 80, <<48, 49, 50, 51>>),
  Code(49, 81, <<48>>), Code(48, 81, <<48>>), Code(48, 80, <<48, 65, 66>>), Code(49, 67, <<2>>), Code(49, 67, <<7>>), Code(49, 69, <<51>>),
  Code(49, 69, <<1>>), Code(49, 65, <<51, 0>>), Code(49, 65, <<50, 0>>), Code(51, 67, <<5>>), Code(53, 81, <<48>>), <<ESC, 97, 2>>, Txt, <<LF>>, <<ESC, 64>> >>
JobsAlphabet == <<
  Txt, <<LF>>, <<ESC, 64>>, <<ESC, 76>>, <<ESC, FF>>, <<FF>>, <<ESC, 83>>, <<GS, 86, 0>>, <<FS, 1>>, <<GS, 107, 2, 49, 0>>, <<CAN, 64>> >>
==============================================================================
