------------------------------- MODULE Schedules -------------------------------
(* Several runs of the real program over the same files with different       *)
(* schedules: the outcome is the same.                                       *)
EXTENDS Naturals, Sequences, Json, IOUtils, TLC
Groups == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES g, verdict
vars == <<g, verdict>>
Init == g \in 1..Len(Groups) /\ verdict = ""
Fault(G) ==
  IF \E i \in 2..Len(G.runs) : G.runs[i].rc # G.runs[1].rc THEN "the exit code depends on the schedule"
  ELSE IF \E i \in 2..Len(G.runs) : G.runs[i].summary # G.runs[1].summary THEN "the summary depends on the schedule"
  ELSE IF \E i \in 2..Len(G.runs) : G.runs[i].findings # G.runs[1].findings THEN "the findings depend on the schedule"
  ELSE IF \E i \in 2..Len(G.runs) : G.runs[i].after # G.runs[1].after THEN "the fixed files depend on the schedule"
  ELSE ""
Judge ==
  /\ verdict = ""
  /\ LET w == TLCEval(Fault(Groups[g])) IN
     IF w = "" THEN PrintT("OK " \o ToString(Groups[g].id)) /\ verdict' = "accepted"
     ELSE PrintT("REJECT " \o ToJson([id |-> Groups[g].id, why |-> w])) /\ verdict' = "rejected"
  /\ UNCHANGED g
Spec == Init /\ [][Judge]_vars
=============================================================================
