-------------------------------- MODULE Conf ---------------------------------
(***************************************************************************)
(* Conformance of recorded executions.                                     *)
(*                                                                         *)
(* Every line of the file JOBS is one stream that was run through the real *)
(* renderer, with what was observed of it: the calls the renderer made on  *)
(* its output, each with the fields and the parts of the context the job   *)
(* asked for, the errors, the number of outputs.  The specification runs   *)
(* over the stream item by item; what it tells the output has to be what   *)
(* was observed, event by event and field by field.                        *)
(***************************************************************************)
EXTENDS Renderer, QrCode, Json, IOUtils, TLC

Jobs == ndJsonDeserialize(IOEnv.JOBS)

VARIABLES job,      \* the job
          at,    \* where its next item starts; 0 before the first command
          item,     \* that item
          evAt,      \* events of the observation matched so far
          erAt,     \* errors of the observation matched so far
          prt,      \* the state of the renderer
          on        \* is the observation on? (a job may have it start at a device command)
vars == <<job, at, item, evAt, erAt, prt, on>>
ConfView == <<job, at>>

Job == Jobs[job]
Obs == Job.ev
Stream == Job.b

(* ------------------------------ comparison ----------------------------- *)
SameGraphic(want, got) ==
    /\ want.g = got.g
    /\ \A f \in DOMAIN got : f \in DOMAIN want /\ want[f] = got[f]
SameStore(want, got) ==
    /\ DOMAIN want.st = {<<got.st[i].s, got.st[i].k[1], got.st[i].k[2]>> : i \in DOMAIN got.st}
    /\ \A i \in DOMAIN got.st :
         SameGraphic(want.st[<<got.st[i].s, got.st[i].k[1], got.st[i].k[2]>>], got.st[i].g)
    /\ Len(want.bf) = Len(got.bf)
    /\ \A i \in DOMAIN got.bf : SameGraphic(want.bf[i], got.bf[i])
SameGroup(g, want, got) ==
    IF g = "s" THEN SameStore(want, got)
    ELSE \A f \in DOMAIN got : (g = "q" /\ f = "pts" /\ got.pts = <<2>>) \/ want[f] = got[f]
SameSpan(want, got) == \A f \in DOMAIN got : want[f] = got[f]
SameField(f, want, got) ==
    CASE f = "c" -> \A g \in DOMAIN got : SameGroup(g, want[g], got[g])
      [] f = "s" -> Len(want) = Len(got) /\ \A i \in DOMAIN got : SameSpan(want[i], got[i])
      [] OTHER -> want = got
Same(want, got) ==
    want.e = got.e /\ \A f \in DOMAIN got : f \in DOMAIN want /\ SameField(f, want[f], got[f])

(* for the report: the first field that differs *)
Difference(want, got) ==
    IF want.e # got.e THEN <<"event">>
    ELSE LET fs == {f \in DOMAIN got : ~(f \in DOMAIN want /\ SameField(f, want[f], got[f]))}
             f == IF fs \ {"c"} = {} THEN "c" ELSE CHOOSE x \in fs \ {"c"} : TRUE
         IN IF f # "c" THEN <<f>>
            ELSE LET gs == {g \in DOMAIN got.c : ~SameGroup(g, want.c[g], got.c[g])}
                     g == CHOOSE x \in gs : TRUE
                 IN IF g = "s" THEN <<"c", "s">>
                    ELSE <<"c", g, CHOOSE x \in DOMAIN got.c[g] : want.c[g][x] # got.c[g][x]>>

(* --------------------------- what was recorded ------------------------- *)
InList(l, x) == \E i \in DOMAIN l : l[i] = x
RecordedEvent(e) ==
    /\ "kinds" \in DOMAIN Job.keep => InList(Job.keep.kinds, e.e)
    /\ e.e = "dev" /\ "devs" \in DOMAIN Job.keep => InList(Job.keep.devs, e.d[1])
FromStart == "after" \notin DOMAIN Job.keep
StartsObs(e) == e.e = "dev" /\ e.d[1] = Job.keep.after
TurnsOn(es) == \E i \in DOMAIN es : StartsObs(es[i])
(* the events that were recorded, when the observation was on before or was not *)
RecordedIf(was, es) ==
    LET first == CHOOSE i \in DOMAIN es : StartsObs(es[i]) /\ \A h \in 1 .. i - 1 : ~StartsObs(es[h])
    IN IF was THEN SelectSeq(es, RecordedEvent)
       ELSE IF ~TurnsOn(es) THEN <<>>
       ELSE SelectSeq(SubSeq(es, first, Len(es)), RecordedEvent)
Recorded(es) == RecordedIf(on, es)
Blind == "blind" \in DOMAIN Job
RecordedErrors(er) == SelectSeq(er, LAMBDA x : InList(Job.errk, x[1]))

Say(x) == PrintT("@@" \o ToJson(x))
Mismatch(what, i, want, got) ==
    Say([job |-> Job.id, mismatch |-> what, at |-> at, event |-> i, want |-> want, got |-> got])

(* How many of the events es are the next ones observed *)
RECURSIVE FirstBad(_, _, _)
FirstBad(es, from, i) ==
    IF i > Len(es) THEN 0
    ELSE IF from + i > Len(Obs) \/ ~Same(es[i], Obs[from + i]) THEN i
    ELSE FirstBad(es, from, i + 1)
RECURSIVE FirstBadError(_, _, _)
FirstBadError(es, from, i) ==
    IF i > Len(es) THEN 0
    ELSE IF from + i > Len(Job.err) \/ es[i] # Job.err[from + i] THEN i
    ELSE FirstBadError(es, from, i + 1)

NoItem == [cmds |-> <<>>, next |-> 0, what |-> "none", i |-> 0, r |-> <<>>]
ItemFrom(p) == IF p > Len(Stream) THEN NoItem ELSE ItemAt(Stream, p)

(* Accept the step to state r1 and position p1, or report where it differs *)
Accept(r1, p1) ==
    LET es == Recorded(r1.ev)  er == RecordedErrors(r1.er)
        be == IF Blind THEN 0 ELSE FirstBad(es, evAt, 1)
        br == IF Blind THEN 0 ELSE FirstBadError(er, erAt, 1)
    IN IF be > 0
       THEN /\ IF evAt + be > Len(Obs) THEN Mismatch(<<"missing">>, evAt + be, es[be], <<>>)
               ELSE Mismatch(Difference(es[be], Obs[evAt + be]), evAt + be, es[be], Obs[evAt + be])
            /\ FALSE
       ELSE IF br > 0
       THEN /\ Mismatch(<<"error">>, erAt + br, er[br],
                        IF erAt + br > Len(Job.err) THEN <<>> ELSE Job.err[erAt + br])
            /\ FALSE
       ELSE /\ prt' = TLCEval([r1 EXCEPT !.ev = <<>>, !.er = <<>>])
            /\ evAt' = evAt + Len(es) /\ erAt' = erAt + Len(er)
            /\ at' = p1 /\ item' = ItemFrom(p1) /\ UNCHANGED job
            /\ on' = (on \/ (~FromStart /\ TurnsOn(r1.ev)))

(* ------------------------------- actions ------------------------------- *)
Init == job \in DOMAIN Jobs /\ at = 0 /\ item = NoItem /\ evAt = 0 /\ erAt = 0 /\ prt = Start
        /\ on = ("after" \notin DOMAIN Jobs[job].keep)

Begin == at = 0 /\ Accept(ExecBegin(prt), 1)

(* The modules of a QR code are taken from the observation, and judged *)
IsStore == item.what = "command" /\ item.cmds[1].k # "Unknown" /\ IsQrStore(Table[item.i].n, item.r)
Hint ==
    IF ~IsStore THEN <<>>
    ELSE LET ix == evAt + Len(Recorded(Flush(prt).ev)) + 1
             q == IF ix > Len(Obs) THEN [sym |-> <<>>, pts |-> <<>>] ELSE Obs[ix].c.q
         IN <<q.sym, IF q.pts = <<2>> THEN prt.c.q.pts ELSE q.pts>>
(* The symbol is judged where it is observed before anything else happens: at a CAN @ *)
Observed == <<24, 64>>
QrFault(hint) ==
    IF ~(IsStore /\ Job.qr /\ SubSeq(Stream, item.next, Min2(item.next + 1, Len(Stream))) = Observed) THEN ""
    ELSE SymbolFault(prt.c.q, SubData("GS ( k", item.r), hint[1], hint[2])

Item ==
    LET hint == Hint  fault == QrFault(hint)
    IN IF fault # ""
       THEN Mismatch(<<"symbol", fault>>, evAt, SubData("GS ( k", item.r), hint[1]) /\ FALSE
       ELSE Accept(Exec(prt, item, hint), item.next)

Kind == IF item.what # "command" THEN item.what
        ELSE IF item.cmds[1].k = "Unknown" THEN "unknown" ELSE Table[item.i].k
Text           == Kind = "text" /\ Item
TextByte       == Kind = "Text" /\ Item
Unknown        == Kind = "unknown" /\ Item
Control        == Kind = "Control" /\ Item
Setting        == Kind = "Context" /\ Item
SettingControl == Kind = "ContextControl" /\ Item
Style          == Kind = "TextStyle" /\ Item
Graphic        == Kind = "Graphics" /\ Item
Subcommand     == Kind = "Subcommand" /\ Item

End ==
    /\ at = Len(Stream) + 1
    /\ Accept(ExecEnd(prt), at + 1)
    /\ IF Blind THEN TRUE
       ELSE IF evAt' # Len(Obs) THEN Mismatch(<<"extra">>, evAt' + 1, <<>>, Obs[evAt' + 1]) /\ FALSE
       ELSE IF erAt' # Len(Job.err) THEN Mismatch(<<"extra error">>, erAt' + 1, <<>>, Job.err[erAt' + 1]) /\ FALSE
       ELSE IF Job.nout >= 0 /\ prt'.no # Job.nout THEN Mismatch(<<"outputs">>, 0, prt'.no, Job.nout) /\ FALSE
       ELSE Say([done |-> Job.id, no |-> prt'.no])

Next == Begin \/ Text \/ TextByte \/ Unknown \/ Control \/ Setting
          \/ SettingControl \/ Style \/ Graphic \/ Subcommand \/ End
Spec == Init /\ [][Next]_vars
==============================================================================
