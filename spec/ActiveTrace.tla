------------------------------ MODULE ActiveTrace ------------------------------
(* Recorded runs with various lists of active rules.                        *)
EXTENDS Active, Json, IOUtils, TLC
Docs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES d, verdict
vars == <<d, verdict>>
Init == d \in 1..Len(Docs) /\ verdict = ""
RECURSIVE AllAlone(_, _)
AllAlone(D, S) == IF S = {} THEN "" ELSE LET R == CHOOSE R \in S : TRUE  w == AloneFault(R, D.alone[R]) IN IF w # "" THEN w ELSE AllAlone(D, S \ {R})
RECURSIVE Runs(_, _)
Runs(D, i) == IF i > Len(D.runs) THEN "" ELSE LET w == SubsetFault(D.runs[i].list, D.alone, D.runs[i].got) IN IF w # "" THEN w ELSE Runs(D, i + 1)
Fault(D) ==
  IF D.kind = "names" THEN RefusalFault(D.list, D.rc, D.touched, D.changed)
  ELSE IF D.st # "ok" THEN "the program did not check this file"
  ELSE LET w == AllAlone(D, Defined) IN IF w # "" THEN w ELSE Runs(D, 1)
Judge ==
  /\ verdict = ""
  /\ LET w == TLCEval(Fault(Docs[d])) IN
     IF w = "" THEN PrintT("OK " \o ToString(Docs[d].id)) /\ verdict' = "accepted"
     ELSE PrintT("REJECT " \o ToJson([id |-> Docs[d].id, why |-> w])) /\ verdict' = "rejected"
  /\ UNCHANGED d
Spec == Init /\ [][Judge]_vars
=============================================================================
