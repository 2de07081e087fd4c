----------------------------- MODULE ConfThermal -----------------------------
(***************************************************************************)
(* Conformance of the .thermal reader and writer.  A line of JOBS is a     *)
(* text with the bytes the real reader made of it ("t", "bytes") and, when *)
(* the real writer wrote the text, the stream it was written for ("b") and *)
(* the names of its commands ("names").  One line of text per step.        *)
(***************************************************************************)
EXTENDS ThermalFile, Json, IOUtils, TLC

Jobs == ndJsonDeserialize(IOEnv.JOBS)

VARIABLES jobNo, at, seen, told, want
vars == <<jobNo, at, seen, told, want>>
Job == Jobs[jobNo]
Text == Job.t
Written == "b" \in DOMAIN Job
Blind == "blind" \in DOMAIN Job

Say(x) == PrintT("@@" \o ToJson(x))
Mismatch(what, w, g) ==
    Say([job |-> Job.id, mismatch |-> <<what>>, at |-> at, want |-> w, got |-> g]) /\ FALSE

(* what a written job has to say *)
Wanted(j) ==
    IF "b" \notin DOMAIN j THEN <<>>
    ELSE LET c == Frames(j.b) IN
         IF Len(c) # Len(j.names) THEN << <<-2>> >>
         ELSE FlattenSeq([i \in DOMAIN c |-> CmdSays(c[i], j.names[i])])
Init == jobNo \in DOMAIN Jobs /\ at = 0 /\ seen = 0 /\ told = 0 /\ want = <<>>
Begin == at = 0 /\ at' = 1 /\ want' = Wanted(Job) /\ UNCHANGED <<jobNo, seen, told>>
Line ==
    /\ at > 0 /\ at <= Len(Text)
    /\ LET l == LineAt(Text, at)
           b == LineBytes(l)
           s == IF Written THEN Says(l) ELSE <<>>
       IN IF ~Blind /\ SubSeq(Job.bytes, seen + 1, Min2(seen + Len(b), Len(Job.bytes))) # b
          THEN Mismatch("bytes", b, SubSeq(Job.bytes, seen + 1, Min2(seen + Len(b), Len(Job.bytes))))
          ELSE IF ~Blind /\ SubSeq(want, told + 1, Min2(told + Len(s), Len(want))) # s
          THEN Mismatch("written", SubSeq(want, told + 1, Min2(told + Len(s), Len(want))), s)
          ELSE /\ seen' = seen + Len(b) /\ told' = told + Len(s)
               /\ at' = LineEnd(Text, at) + 1 /\ UNCHANGED <<jobNo, want>>
End ==
    /\ at > Len(Text) /\ at # Len(Text) + 9
    /\ at' = Len(Text) + 9 /\ UNCHANGED <<jobNo, seen, told, want>>
    /\ IF ~Blind /\ seen # Len(Job.bytes) THEN Mismatch("extra bytes", <<>>, SubSeq(Job.bytes, seen + 1, Len(Job.bytes)))
       ELSE IF ~Blind /\ Written /\ told # Len(want) THEN Mismatch("missing", SubSeq(want, told + 1, Len(want)), <<>>)
       ELSE Say([done |-> Job.id])
Next == Begin \/ Line \/ End
Spec == Init /\ [][Next]_vars
===============================================================================
