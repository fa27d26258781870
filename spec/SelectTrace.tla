------------------------------ MODULE SelectTrace ------------------------------
(* Recorded runs of the program in generated worlds: the files it scanned    *)
(* and whether anything changed, against Select.                             *)
EXTENDS Select, Json, IOUtils, TLC
Runs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES r, verdict
vars == <<r, verdict>>
Init == r \in 1..Len(Runs) /\ verdict = ""
World(R) == [files |-> SetOf(R.files), args |-> SetOf(R.args), gits |-> SetOf(R.gits), cwd |-> R.cwd,
             ignores |-> { [dir |-> R.ignores[i].dir, kind |-> R.ignores[i].kind, patterns |-> Patterns(R.ignores[i].lines)] : i \in 1..Len(R.ignores) }]
RECURSIVE Joined(_, _)
Joined(p, i) == IF i > Len(p) THEN "" ELSE "/" \o p[i] \o Joined(p, i + 1)
Some(s) == Joined(CHOOSE x \in s : TRUE, 1)
Fault(R) ==
  LET open == TLCEval(Open(World(R)))
      want == TLCEval(Selected(World(R))) \ open
      all  == SetOf(R.got)
      got  == all \ open
  IN IF R.st # "ok" THEN "the program did not end properly"
     ELSE IF got \ want # {} THEN "a file is scanned that is not selected: " \o Some(got \ want)
     ELSE IF want \ got # {} THEN "a selected file is not scanned: " \o Some(want \ got)
     ELSE IF Len(R.got) # Cardinality(all) THEN "a file is scanned more than once"
     ELSE IF R.changed # SetOf(R.fixable) \cap all THEN "other files are changed than those selected"
     ELSE IF R.missing # R.walkErrors THEN "a named file that does not exist is not an error"
     ELSE ""
Judge ==
  /\ verdict = ""
  /\ LET R == Runs[r]
         w == TLCEval(Fault([R EXCEPT !.changed = SetOf(R.changed)])) IN
     IF w = "" THEN PrintT("OK " \o ToString(R.id)) /\ verdict' = "accepted"
     ELSE PrintT("REJECT " \o ToJson([id |-> R.id, why |-> w])) /\ verdict' = "rejected"
  /\ UNCHANGED r
Spec == Init /\ [][Judge]_vars
=============================================================================
