------------------------------ MODULE ConfHtml -------------------------------
(***************************************************************************)
(* Conformance of the receipt document: a line of JOBS is a stream, the    *)
(* documents the real html renderer made of it, as read by htmlview.py,    *)
(* and the QR symbols it stored (judged elsewhere).  GLYPHS are the        *)
(* letters printed on pages, shell is all of a document but the receipt.   *)
(***************************************************************************)
EXTENDS Renderer, Json, IOUtils, TLC, FiniteSets

Jobs == ndJsonDeserialize(IOEnv.JOBS)
GlyphTable == ndJsonDeserialize(IOEnv.GLYPHS)
Grid(g) == [w |-> g.w, h |-> g.h, grow |-> FALSE, xs |-> g.xs, ys |-> g.ys, c |-> g.c]
GlyphOf == TLCEval([k \in {GlyphTable[i].k : i \in DOMAIN GlyphTable} |->
                      Grid(GlyphTable[CHOOSE i \in DOMAIN GlyphTable : GlyphTable[i].k = k])])
H == INSTANCE Html WITH Glyph <- GlyphOf

VARIABLES jobNo, at, prt, desk, stores
vars == <<jobNo, at, prt, desk, stores>>
ConfView == <<jobNo, at>>
Job == Jobs[jobNo]
Stream == Job.b
Say(x) == PrintT("@@" \o ToJson(x))

Init == jobNo \in DOMAIN Jobs /\ at = 0 /\ prt = Start /\ desk = H!Blank /\ stores = 0
To(r, p) ==
    /\ desk' = TLCEval(H!ShowAll(desk, r.ev)) /\ prt' = TLCEval([r EXCEPT !.ev = <<>>, !.er = <<>>])
    /\ at' = p /\ UNCHANGED jobNo
Begin == at = 0 /\ To(ExecBegin(prt), 1) /\ UNCHANGED stores
Item ==
    /\ at \in 1 .. Len(Stream)
    /\ LET it == ItemAt(Stream, at)
           store == it.what = "command" /\ it.cmds[1].k # "Unknown" /\ IsQrStore(Table[it.i].n, it.r)
       IN /\ To(Exec(prt, it, IF store THEN Job.qr[stores + 1] ELSE <<>>), it.next)
          /\ stores' = IF store THEN stores + 1 ELSE stores
Judge ==
    IF Len(desk'.out) # Len(Job.docs)
    THEN Say([job |-> Job.id, mismatch |-> <<"documents">>, at |-> at, want |-> Len(desk'.out), got |-> Len(Job.docs)]) /\ FALSE
    ELSE LET wrong(k) == IF Job.docs[k].shell # Job.shell THEN <<"rest of the document", Job.shell, Job.docs[k].shell, 0>>
                         ELSE H!DocWrong(desk'.out[k], Job.docs[k])
             bad == {k \in DOMAIN Job.docs : wrong(k) # <<>>}
         IN IF bad = {} THEN Say([done |-> Job.id, shown |-> FoldLeft(LAMBDA n, o : n + Len(o.shown), 0, desk'.out)])
            ELSE LET w == wrong(CHOOSE k \in bad : \A h \in bad : k <= h)
                 IN Say([job |-> Job.id, mismatch |-> <<w[1]>>, at |-> w[4], want |-> w[2], got |-> w[3]]) /\ FALSE
End == at = Len(Stream) + 1 /\ To(ExecEnd(prt), at + 1) /\ UNCHANGED stores /\ Judge
Next == Begin \/ Item \/ End
Spec == Init /\ [][Next]_vars
==============================================================================
