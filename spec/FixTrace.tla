------------------------------- MODULE FixTrace -------------------------------
(* Recorded --fix runs of the real program, one file each, against Fix and   *)
(* Meaning.  A record holds the file before and after, the rounds (text,     *)
(* findings, number of syntax errors), the edits each round chose, what was  *)
(* reported, a plain run on the file as it is then, and a second --fix run.  *)
EXTENDS Fix, Json, IOUtils
M == INSTANCE Meaning

Docs == ndJsonDeserialize(IOEnv.TRACE)
Property == IOEnv.FIX_PROPERTY
VARIABLES d, verdict
vars == <<d, verdict>>
Init == d \in 1..Len(Docs) /\ verdict = ""

Last(D) == D.rounds[Len(D.rounds)]
(* findings as a bag: every one as often as it occurs                       *)
SameBag(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : Times(a[i], a) = Times(a[i], b)

RECURSIVE RoundsFault(_, _)
RoundsFault(D, i) ==
  IF i > Len(D.chosen) THEN ""
  ELSE LET r == D.rounds[i] IN
       IF Len(Fixable(r.results)) = 0 THEN "edits are applied although no finding has any"
       ELSE LET w == RoundFault(r.text, r.results, D.chosen[i], D.rounds[i + 1].text) IN
            IF w # "" THEN w ELSE RoundsFault(D, i + 1)
(* P08 *)
Rounds(D) ==
  IF D.rounds[1].text # D.before THEN "the first round is not about the text of the file"
  ELSE IF Len(D.chosen) # Len(D.rounds) - 1 THEN "not every round is followed by another check"
  ELSE IF D.st # "ok" /\ Len(D.rounds) < 11 THEN "the file was given up although findings could be fixed"
  ELSE RoundsFault(D, 1)
(* P09: ten rounds may not be enough, but only if there are fewer and fewer  *)
(* findings left to fix                                                     *)
Converges(D) ==
  IF D.st # "ok" THEN
    IF Len(D.rounds) = 11 /\ Len(Fixable(D.rounds[11].results)) = 0 THEN "the file was given up although ten rounds were enough"
    ELSE IF Len(D.rounds) = 11 /\ Len(Fixable(D.rounds[11].results)) < Len(Fixable(D.rounds[6].results)) THEN "" ELSE "the rules undo each other's fixes"
  ELSE IF Len(Fixable(Last(D).results)) > 0 THEN "a finding still has an edit after --fix completed"
  ELSE IF Len(Fixable(D.reported.results)) > 0 THEN "a reported finding has an edit after --fix"
  ELSE IF D.plain.st # "ok" \/ D.again.st # "ok" THEN "the fixed file can't be processed"
  ELSE IF D.plain.before # D.after \/ D.again.before # D.after THEN "(machinery: the later runs are about another text)"
  ELSE IF ~SameBag(D.reported.results, D.plain.reported.results) THEN "the findings reported by --fix are not those of a plain run on the fixed file"
  ELSE IF ~SameBag(D.reported.errors, D.plain.reported.errors) THEN "the syntax errors reported by --fix are not those of a plain run on the fixed file"
  ELSE IF D.again.after # D.after \/ Len(D.again.chosen) > 0 \/ D.again.write THEN "a second --fix changes the file again"
  ELSE IF D.plain.after # D.after THEN "a plain run changes the file"
  ELSE ""
(* P11 *)
Keeps(D) ==
  IF D.st # "ok" \/ Len(D.trees) = 0 \/ D.rounds[1].errors > 0 THEN ""
  ELSE IF Last(D).errors > 0 /\ \E n \in 1..Len(D.trees[1]) : D.trees[1][n].k = "TWIG_EXTENDS" /\ ~M!ExtendsString(D.trees[1], n) THEN "extends with something else than a string becomes sw_extends"
  ELSE IF Last(D).errors > 0 THEN "the fixed template has a syntax error"
  ELSE IF Last(D).text # D.after THEN "the file does not hold the fixed template"
  ELSE M!ContentFault(D.trees[1], D.trees[2])

Fault(D) ==
  IF D.st = "crash" \/ Len(D.rounds) = 0 THEN "the program did not process this file"
  ELSE CASE Property = "P08" -> Rounds(D) [] Property = "P09" -> Converges(D) [] Property = "P11" -> Keeps(D)

Judge ==
  /\ verdict = ""
  /\ LET D == Docs[d]  w == TLCEval(Fault(D)) IN
     IF w = "" THEN PrintT("OK " \o ToString(D.id)) /\ verdict' = "accepted"
     ELSE PrintT("REJECT " \o ToJson([id |-> D.id, why |-> w])) /\ verdict' = "rejected"
  /\ UNCHANGED d
Spec == Init /\ [][Judge]_vars
=============================================================================
