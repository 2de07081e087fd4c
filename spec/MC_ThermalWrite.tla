--------------------------- MODULE MC_ThermalWrite ---------------------------
(* Writer: every stream over Alphabet up to MaxLen, its commands written in  *)
(* any of the notations, reads back as bytes that make the same commands.    *)
EXTENDS ThermalFile, TLC
CONSTANTS Alphabet, MaxLen
VARIABLE s
vars == <<s>>
MCInit == s = <<>>
MCNext == \E b \in Alphabet : Len(s) < MaxLen /\ s' = Append(s, b)
MCSpec == MCInit /\ [][MCNext]_vars

Name == <<78, 34, 49>>
Text(as) == LET c == Frames(s) IN FlattenSeq([i \in DOMAIN c |-> Write(c[i], Name, as)])
RoundTrip == \A as \in {"hex", "decimal", "string"} : Frames(Read(Text(as))) = Frames(s)
Said == \A as \in {"hex", "string"} :
    LET l == Lines(Text(as))  c == Frames(s)
    IN FlattenSeq([i \in DOMAIN l |-> Says(l[i])]) = FlattenSeq([i \in DOMAIN c |-> CmdSays(c[i], Name)])
=============================================================================
