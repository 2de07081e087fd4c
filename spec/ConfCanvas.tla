----------------------------- MODULE ConfCanvas ------------------------------
(* Conformance of the canvas: a line of JOBS is a blank canvas, the          *)
(* operations done on the real one and all its dots after each of them.      *)
EXTENDS Canvas, Json, IOUtils, TLC

Jobs == ndJsonDeserialize(IOEnv.JOBS)
VARIABLES jobNo, at, c
vars == <<jobNo, at, c>>
Job == Jobs[jobNo]

Say(x) == PrintT("@@" \o ToJson(x))
Do(o) ==
    CASE o[1] = "put" -> Put(c, o[2], o[3], o[4], o[5], o[6], o[7])
      [] o[1] = "rect" -> Rect(c, o[2], o[3], o[4], o[5], o[6])
      [] o[1] = "r90" -> Turn90(c)
      [] o[1] = "r180" -> Turn180(c)
      [] o[1] = "r270" -> Turn270(c)
      [] o[1] = "ew" -> Wider(c, o[2])
      [] o[1] = "eh" -> Taller(c, o[2])
      [] o[1] = "flip" -> Flip(c, o[2], o[3], o[4], o[5])
      [] o[1] = "page" -> GrowPage(c, o[2], o[3], o[4])
      [] o[1] = "sw" -> SetPaper(c, o[2])

Init == jobNo \in DOMAIN Jobs /\ at = 1 /\ c = Blank(Job.w, Job.h, Job.grow)
Op ==
    /\ at <= Len(Job.ops)
    /\ LET n == Do(Job.ops[at])
           s == Job.steps[at]
       IN IF "blind" \in DOMAIN Job \/ (s.w = n.w /\ s.h = n.h /\ s.p = n.p)
          THEN c' = n /\ at' = at + 1 /\ UNCHANGED jobNo
          ELSE /\ Say([job |-> Job.id, mismatch |-> <<Job.ops[at][1]>>, at |-> at,
                       want |-> [w |-> n.w, h |-> n.h, p |-> n.p], got |-> s])
               /\ FALSE
Done == /\ at = Len(Job.ops) + 1 /\ at' = at + 1 /\ UNCHANGED <<jobNo, c>> /\ Say([done |-> Job.id])
Next == Op \/ Done
Spec == Init /\ [][Next]_vars
==============================================================================
