------------------------------ MODULE MC_Parser ----------------------------
(* Every stream over Alphabet up to MaxLen: the byte machine and the        *)
(* declarative framing agree and no byte is lost, duplicated or reordered.  *)
EXTENDS Parser, TLC
CONSTANTS Alphabet, MaxLen
VARIABLES s, p
vars == <<s, p>>

MCInit == s = <<>> /\ p = PInit
Feed(b) == Len(s) < MaxLen /\ s' = Append(s, b) /\ p' = PStep(p, b)
MCNext == \E b \in Alphabet : Feed(b)
MCSpec == MCInit /\ [][MCNext]_vars

FormsAgree == PFinish(p) = Frames(s)
Partition == Cat(SpansFrom(s, 1)) = s
(* Everything a command is written back with is in the stream, in order:    *)
(* the spans of the items that make a command are those very bytes.         *)
(* (NUL ended barcodes get back the NUL they may lack at the end.)          *)
RECURSIVE WrittenBack(_, _)
WrittenBack(t, q) ==
    \/ q > Len(t)
    \/ LET it == ItemAt(t, q)
           span == SubSeq(t, q, it.next - 1)
           c == it.cmds
       IN /\ Len(c) = 1
          /\ LET w == IF c[1].k = "Unknown" THEN c[1].bd ELSE c[1].bc \o c[1].bd
             IN w = span \/ (it.next > Len(t) /\ w = span \o <<NUL>>)
          /\ WrittenBack(t, it.next)
NothingInvented == WrittenBack(s, 1)
(* Commands already complete never change as more bytes arrive *)
PrefixStable == [][ \E n \in 0 .. Len(p'.out) : SubSeq(p'.out, 1, n) = p.out ]_vars
Items == Len(p.out) <= Len(s) + 1
============================================================================
