---------------------------- MODULE ReportTrace ----------------------------
(* Files with their findings and what the real program printed about them,  *)
(* and runs with the order in which it printed them and the syntax trees it *)
(* printed.                                                                 *)
EXTENDS Report, Json, IOUtils, SequencesExt

Docs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES d, verdict
vars == <<d, verdict>>
Init == d \in 1..Len(Docs) /\ verdict = ""

None == [why |-> "", key |-> <<>>]
OfFile(r) == Fault(r.source, ToSet(r.strange), ToSet(r.wide), r.findings, r.blocks)
OfRun(r) ==
  IF Torn(r.order) THEN [why |-> "the findings of a file are torn apart", key |-> <<>>]
  ELSE IF r.strangers # <<>> THEN [why |-> "a finding of a file that is not scanned is printed", key |-> <<r.strangers[1]>>]
  ELSE IF ToSet(r.trees) \ ToSet(r.printed) # {} THEN [why |-> "the syntax tree of a file is not printed", key |-> <<>>]
  ELSE IF ToSet(r.printed) \ ToSet(r.trees) # {} \/ Len(r.printed) # Len(r.trees) THEN [why |-> "a syntax tree is printed that no file has", key |-> <<>>]
  ELSE None
What == LET r == Docs[d] IN
  IF r.st # "ok" THEN [why |-> "the program did not end properly", key |-> <<>>]
  ELSE IF r.mode = "file" THEN OfFile(r) ELSE OfRun(r)
Judge ==
  /\ verdict = ""
  /\ LET w == TLCEval(What) IN
     IF w.why = "" THEN verdict' = "accepted" /\ PrintT("OK " \o ToString(Docs[d].id))
     ELSE verdict' = "rejected" /\ PrintT("REJECT " \o ToJson([id |-> Docs[d].id, why |-> w.why, key |-> w.key]))
  /\ UNCHANGED d
Spec == Init /\ [][Judge]_vars
============================================================================
