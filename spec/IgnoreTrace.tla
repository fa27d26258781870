------------------------------ MODULE IgnoreTrace ------------------------------
(* Recorded pairs of checks: a file with ignore directives (tree `nodes`,    *)
(* findings `got`), and the same file with plain comments instead (`all`).   *)
EXTENDS Ignore, Json, IOUtils
Docs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES d, verdict
vars == <<d, verdict>>
Init == d \in 1..Len(Docs) /\ verdict = ""
(* a directive that isn't well-formed itself is a syntax error, not a comment *)
Fault(D) == IF D.st # "ok" THEN "the program did not check this file" ELSE IF D.malformed \/ Malformed(D.nodes) THEN "" ELSE DirectiveFault(D.nodes, D.all, D.got)
Judge ==
  /\ verdict = ""
  /\ LET w == TLCEval(Fault(Docs[d])) IN
     IF w = "" THEN PrintT("OK " \o ToString(Docs[d].id)) /\ verdict' = "accepted"
     ELSE PrintT("REJECT " \o ToJson([id |-> Docs[d].id, why |-> w])) /\ verdict' = "rejected"
  /\ UNCHANGED d
Spec == Init /\ [][Judge]_vars
=============================================================================
