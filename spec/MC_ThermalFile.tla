---------------------------- MODULE MC_ThermalFile ---------------------------
(* Reader: every text over Alphabet up to MaxLen; the tokenizer machine and  *)
(* the declarative tokens agree, and the laws of the format hold.            *)
EXTENDS ThermalFile, TLC
CONSTANTS Alphabet, MaxLen
VARIABLES text, m
vars == <<text, m>>
MCInit == text = <<>> /\ m = TInit
MCNext == \E c \in Alphabet : Len(text) < MaxLen /\ text' = Append(text, c) /\ m' = TStep(m, c)
MCSpec == MCInit /\ [][MCNext]_vars

(* as one line (a line may hold any character but its end) *)
FormsAgree == LF \notin Range(text) => TFinish(m) = Tokens(text)
(* a quoted text reads as its UTF-8, whatever it holds *)
QuotedReads == {LF, CR} \cap Range(text) = {} => Read(Quoted(text)) = Utf8Of(text)
(* lines are read one by one, whatever their ends *)
LinesApart == \A i \in DOMAIN text : text[i] = LF =>
    Read(text) = Read(SubSeq(text, 1, i)) \o Read(SubSeq(text, i + 1, Len(text)))
EndsAlike == LF \notin Range(text) /\ (text = <<>> \/ Last(text) # CR) =>
    Read(text \o <<LF>>) = Read(text) /\ Read(text \o <<CR, LF>>) = Read(text)
(* a comment hides its line and no other *)
Comments == LF \notin Range(text) =>
    Read(CommentMark \o text \o <<LF, 97>>) = <<97>> /\ Read(text \o <<LF>> \o CommentMark) = Read(text \o <<LF>>)
(* white space between tokens is free, and a closed line can be continued *)
Free == LF \notin Range(text) /\ m.mode = "out" /\ ~IsComment(text) =>
    /\ Read(text \o <<Space, 9, 97>>) = Read(text) \o <<97>>
    /\ Read(text \o <<Quote, 97>>) = Read(text) \o <<97>>
    /\ Read(<<Space>> \o text) = Read(text)
Bytes8 == \A i \in DOMAIN Read(text) : Read(text)[i] \in Byte
=============================================================================
