----------------------------- MODULE CmdTable ------------------------------
(***************************************************************************)
(* The command set: how each command is recognised (its opener), what kind *)
(* of effect it has, and how many operand bytes belong to it.              *)
(***************************************************************************)
EXTENDS Bytes

Row(n, o, k, f) == [n |-> n, o |-> o, k |-> k, f |-> f]

(* n: name   o: opening bytes   k: kind of effect   f: operand format *)
Table == <<
  Row("GS k",    <<GS, 107>>,      "Graphics",       "Barcode"),
  Row("ESC *",   <<ESC, 42>>,      "Graphics",       "BitImage"),
  Row("CAN @",   <<CAN, 64>>,      "Control",        "None"),
  Row("CR",      <<CR>>,           "Text",           "None"),
  Row("GS ( k",  <<GS, 40, 107>>,  "Subcommand",     "Sub"),
  Row("ESC 2",   <<ESC, 50>>,      "Context",        "None"),
  Row("GS V",    <<GS, 86>>,       "Control",        "Cut"),
  Row("FF",      <<FF>>,           "Control",        "None"),
  Row("GS ( L",  <<GS, 40, 76>>,   "Subcommand",     "Sub"),
  Row("HT",      <<HT>>,           "Text",           "None"),
  Row("ESC @",   <<ESC, 64>>,      "ContextControl", "None"),
  Row("GS 8 L",  <<GS, 56, 76>>,   "Subcommand",     "SubLarge"),
  Row("LF",      <<LF>>,           "Text",           "None"),
  Row("ESC c 3", <<ESC, 99, 3>>,   "Control",        "One"),
  Row("ESC d",   <<ESC, 100>>,     "Control",        "One"),
  Row("ESC J",   <<ESC, 74>>,      "Control",        "One"),
  Row("ESC e",   <<ESC, 101>>,     "Control",        "One"),
  Row("ESC c 4", <<ESC, 99, 4>>,   "Control",        "One"),
  Row("ESC p",   <<ESC, 112>>,     "Control",        "Three"),
  Row("GS v 0",  <<GS, 118, 48>>,  "Graphics",       "Raster"),
  Row("GS ( H",  <<GS, 40, 72>>,   "Control",        "Sub"),
  Row("ESC $",   <<ESC, 36>>,      "Context",        "Two"),
  Row("ESC r",   <<ESC, 114>>,     "TextStyle",      "One"),
  Row("GS h",    <<GS, 104>>,      "Context",        "One"),
  Row("GS w",    <<GS, 119>>,      "Context",        "One"),
  Row("GS B",    <<GS, 66>>,       "TextStyle",      "One"),
  Row("GS !",    <<GS, 33>>,       "TextStyle",      "One"),
  Row("ESC t",   <<ESC, 116>>,     "TextStyle",      "One"),
  Row("ESC G",   <<ESC, 71>>,      "TextStyle",      "One"),
  Row("ESC E",   <<ESC, 69>>,      "TextStyle",      "One"),
  Row("ESC M",   <<ESC, 77>>,      "TextStyle",      "One"),
  Row("GS P",    <<GS, 80>>,       "Context",        "Two"),
  Row("GS f",    <<GS, 102>>,      "Context",        "One"),
  Row("GS H",    <<GS, 72>>,       "Context",        "One"),
  Row("ESC R",   <<ESC, 82>>,      "TextStyle",      "One"),
  Row("ESC 4",   <<ESC, 52>>,      "TextStyle",      "One"),
  Row("ESC a",   <<ESC, 97>>,      "Control",        "One"),
  Row("ESC 3",   <<ESC, 51>>,      "Context",        "One"),
  Row("ESC c 5", <<ESC, 99, 5>>,   "Control",        "One"),
  Row("ESC =",   <<ESC, 61>>,      "Control",        "One"),
  Row("ESC !",   <<ESC, 33>>,      "TextStyle",      "One"),
  Row("GS \\",   <<GS, 92>>,       "Context",        "Two"),
  Row("GS b",    <<GS, 98>>,       "TextStyle",      "One"),
  Row("ESC D",   <<ESC, 68>>,      "TextStyle",      "Two"),
  Row("ESC -",   <<ESC, 45>>,      "TextStyle",      "One"),
  Row("ESC {",   <<ESC, 123>>,     "TextStyle",      "One"),
  Row("GS I",    <<GS, 73>>,       "Control",        "One"),
  Row("ESC L",   <<ESC, 76>>,      "ContextControl", "None"),
  Row("GS $",    <<GS, 36>>,       "Context",        "Two"),
  Row("ESC W",   <<ESC, 87>>,      "ContextControl", "Eight"),
  Row("ESC T",   <<ESC, 84>>,      "ContextControl", "One"),
  Row("ESC FF",  <<ESC, FF>>,      "Control",        "None"),
  Row("ESC S",   <<ESC, 83>>,      "Context",        "None"),
  Row("GS ( N",  <<GS, 40, 78>>,   "TextStyle",      "Effects"),
  Row("GS ( G",  <<GS, 40, 71>>,   "Context",        "Four")
>>

Openers == {Table[i].o : i \in DOMAIN Table}
IdxOf == [o \in Openers |-> CHOOSE i \in DOMAIN Table : Table[i].o = o]
PartOpeners == UNION {{SubSeq(o, 1, n) : n \in 1 .. Len(o) - 1} : o \in Openers}
FirstBytes == {o[1] : o \in Openers}
IsFirst == [b \in Byte |-> b \in FirstBytes]
(* a byte that starts a sequence of its own even when no command matches it *)
UnknownLead == {DLE, ESC, FS, GS}
IsPlain == [b \in Byte |-> b \notin FirstBytes /\ b \notin UnknownLead]

(* No opener is a prefix of another: recognition never has to back up. *)
ASSUME PrefixFree == \A p \in Openers : p \notin PartOpeners
============================================================================
