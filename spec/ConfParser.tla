----------------------------- MODULE ConfParser ------------------------------
(***************************************************************************)
(* Conformance of the parser.  Every line of JOBS is one stream with the   *)
(* commands the real parser made of it.  The specification cuts the stream *)
(* item by item; the commands of each item have to be the next ones made.  *)
(***************************************************************************)
EXTENDS Parser, Json, IOUtils, TLC

Jobs == ndJsonDeserialize(IOEnv.JOBS)

VARIABLES jobNo, at, seen
vars == <<jobNo, at, seen>>
Job == Jobs[jobNo]
Stream == Job.b
Obs == Job.cmds

Say(x) == PrintT("@@" \o ToJson(x))
SameCmd(want, got) == \A f \in DOMAIN got : want[f] = got[f]
Mismatch(what, want, got) ==
    Say([job |-> Job.id, mismatch |-> what, at |-> at, want |-> want, got |-> got]) /\ FALSE
Difference(want, got) == CHOOSE f \in DOMAIN got : want[f] # got[f]

Accept(cmds, next) ==
    LET bad == IF "blind" \in DOMAIN Job THEN {} ELSE {i \in DOMAIN cmds : seen + i > Len(Obs) \/ ~SameCmd(cmds[i], Obs[seen + i])}
        i == CHOOSE x \in bad : \A y \in bad : x <= y
    IN IF bad # {} THEN
            IF seen + i > Len(Obs) THEN Mismatch(<<"missing command">>, cmds[i], <<>>)
            ELSE Mismatch(<<Difference(cmds[i], Obs[seen + i])>>, cmds[i], Obs[seen + i])
       ELSE /\ at' = next /\ seen' = seen + Len(cmds) /\ UNCHANGED jobNo

Init == jobNo \in DOMAIN Jobs /\ at = 0 /\ seen = 0
Begin == at = 0 /\ Accept(<<BeginCmd>>, 1)
Item == /\ at > 0 /\ at <= Len(Stream)
        /\ LET it == ItemAt(Stream, at) IN Accept(it.cmds, it.next)
End == /\ at = Len(Stream) + 1
       /\ Accept(<<EndCmd>>, at + 1)
       /\ IF "blind" \in DOMAIN Job THEN TRUE
          ELSE IF seen' # Len(Obs) THEN Mismatch(<<"extra command">>, <<>>, Obs[seen' + 1])
          ELSE Say([done |-> Job.id])
Next == Begin \/ Item \/ End
Spec == Init /\ [][Next]_vars
==============================================================================
