----------------------------- MODULE ConfReceipt -----------------------------
(***************************************************************************)
(* Conformance of the receipt image: a line of JOBS is a stream, the       *)
(* pictures the real image renderer made of it, as grids of cells, and the *)
(* QR symbols it stored (judged elsewhere).  GLYPHS are the letters.       *)
(***************************************************************************)
EXTENDS Renderer, Json, IOUtils, TLC, FiniteSets

Jobs == ndJsonDeserialize(IOEnv.JOBS)
GlyphTable == ndJsonDeserialize(IOEnv.GLYPHS)
Grid(g) == [w |-> g.w, h |-> g.h, grow |-> FALSE, xs |-> g.xs, ys |-> g.ys, c |-> g.c]
GlyphOf == TLCEval([k \in {GlyphTable[i].k : i \in DOMAIN GlyphTable} |->
                      Grid(GlyphTable[CHOOSE i \in DOMAIN GlyphTable : GlyphTable[i].k = k])])
R == INSTANCE Receipt WITH Glyph <- GlyphOf

VARIABLES jobNo, at, prt, desk, stores
vars == <<jobNo, at, prt, desk, stores>>
ConfView == <<jobNo, at>>
Job == Jobs[jobNo]
Stream == Job.b
Say(x) == PrintT("@@" \o ToJson(x))

Init == jobNo \in DOMAIN Jobs /\ at = 0 /\ prt = Start /\ desk = R!Desk /\ stores = 0
To(r, p) ==
    /\ desk' = TLCEval(R!Show(desk, r.ev)) /\ prt' = TLCEval([r EXCEPT !.ev = <<>>, !.er = <<>>])
    /\ at' = p /\ UNCHANGED jobNo
Begin == at = 0 /\ To(ExecBegin(prt), 1) /\ UNCHANGED stores
Item ==
    /\ at \in 1 .. Len(Stream)
    /\ LET it == ItemAt(Stream, at)
           store == it.what = "command" /\ it.cmds[1].k # "Unknown" /\ IsQrStore(Table[it.i].n, it.r)
       IN /\ To(Exec(prt, it, IF store THEN Job.qr[stores + 1] ELSE <<>>), it.next)
          /\ stores' = IF store THEN stores + 1 ELSE stores
UnknownCells == FoldLeft(LAMBDA n, p : n + Cardinality({k \in DOMAIN p.c : p.c[k] = R!Pic!Unknown}), 0, desk'.out)
Judge ==
    IF "blind" \in DOMAIN Job THEN TRUE
    ELSE IF "off" \in DOMAIN Job /\ desk'.err # Job.off
    THEN Say([job |-> Job.id, mismatch |-> <<"errors">>, at |-> at, want |-> desk'.err, got |-> Job.off]) /\ FALSE
    ELSE IF "off" \in DOMAIN Job THEN Say([done |-> Job.id, unknown |-> 0])
    ELSE IF Len(desk'.out) # Len(Job.imgs)
    THEN Say([job |-> Job.id, mismatch |-> <<"pictures">>, at |-> at, want |-> Len(desk'.out), got |-> Len(Job.imgs)]) /\ FALSE
    ELSE LET wrong(k) == LET a == desk'.out[k]  b == Job.imgs[k] IN
                IF a.w # b.w \/ a.h # b.h THEN <<"size", <<a.w, a.h>>, <<b.w, b.h>>>>
                ELSE IF a.c = <<>> THEN <<>>
                ELSE LET d == R!Pic!Differ(a, Grid(b)) IN
                     IF d = <<>> THEN <<>> ELSE <<"dot", <<d[1], d[2], d[3]>>, <<d[1], d[2], d[4]>>>>
             bad == {k \in DOMAIN Job.imgs : wrong(k) # <<>>}
         IN IF bad = {} THEN Say([done |-> Job.id, unknown |-> UnknownCells])
            ELSE LET w == wrong(CHOOSE k \in bad : \A h \in bad : k <= h)
                 IN Say([job |-> Job.id, mismatch |-> <<w[1]>>, at |-> at, want |-> w[2], got |-> w[3]]) /\ FALSE
End == at = Len(Stream) + 1 /\ To(ExecEnd(prt), at + 1) /\ UNCHANGED stores /\ Judge
Next == Begin \/ Item \/ End
Spec == Init /\ [][Next]_vars
==============================================================================
