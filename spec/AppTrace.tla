------------------------------- MODULE AppTrace -------------------------------
(* Recorded runs of the real program, step by step, against App.  A run has  *)
(* its files (content before and after, what is wrong with them), its events *)
(* in the order in which they happened, and what it printed at the end.      *)
EXTENDS App, Integers, Json, IOUtils, TLC
Runs == ndJsonDeserialize(IOEnv.TRACE)
Property == IOEnv.APP_PROPERTY
VARIABLES r, i, stage, sent, got, verdict
vars == <<r, i, stage, sent, got, verdict>>
Init == /\ r \in 1..Len(Runs) /\ i = 1 /\ sent = None /\ got = None /\ verdict = ""
        /\ stage = [f \in 1..Len(Runs[r].files) |-> "new"]

Run == Runs[r]
Ev == Run.events[i]
InWork == { f \in 1..Len(Run.files) : stage[f] \notin {"new", "reported"} }
(* errors of a file in work that may have failed, and of the walker, can't  *)
(* be told apart from outside: their number is limited                      *)
MayHaveSent(k) == sent[k] + (IF k = "error" THEN Cardinality(InWork) + Run.walkErrors ELSE 0)
(* P12, P10: is this event possible now?                                    *)
EventFault ==
  IF Ev.ev = "received" THEN IF Ev.what \notin Kinds THEN "an unknown message" ELSE IF got[Ev.what] + 1 > MayHaveSent(Ev.what) THEN "more messages of a kind are counted than sent: " \o Ev.what ELSE ""
  ELSE IF Ev.f = 0 THEN "a file is processed that should not be"
  ELSE IF stage[Ev.f] = "new" /\ Ev.ev # "file" THEN "a file is processed before it starts"
  ELSE IF Ev.ev = "file" /\ stage[Ev.f] # "new" THEN "a file is processed twice"
  ELSE IF stage[Ev.f] \notin Follows(Ev.ev, Run.fix) THEN "the steps of a file are out of order: " \o Ev.ev
  ELSE ""
Step ==
  /\ verdict = "" /\ Run.st = "ok" /\ i <= Len(Run.events)
  /\ LET w == EventFault IN
     IF w # "" THEN /\ PrintT("REJECT " \o ToJson([id |-> Run.id, why |-> w, at |-> i])) /\ verdict' = "rejected" /\ UNCHANGED <<stage, sent, got>>
     ELSE /\ verdict' = verdict
          /\ IF Ev.ev = "received" THEN got' = [got EXCEPT ![Ev.what] = @ + 1] /\ UNCHANGED <<stage, sent>>
             ELSE /\ stage' = [stage EXCEPT ![Ev.f] = Ev.ev]
                  /\ sent' = IF Ev.ev = "file" THEN [sent EXCEPT !.file = @ + 1]
                             ELSE IF Ev.ev = "reported" THEN Plus(sent, MessagesOf(Ev.count, Run.inspect)) ELSE sent
                  /\ UNCHANGED got
  /\ i' = i + 1 /\ UNCHANGED r

(* P12 at the end                                                           *)
Failed == { f \in 1..Len(Run.files) : stage[f] \notin {"new", "reported"} }
Final == [sent EXCEPT !.error = @ + Cardinality(Failed) + Run.walkErrors]
Untouched == { f \in 1..Len(Run.files) : stage[f] = "new" }
AccountFault ==
  IF Untouched # {} THEN "a file is not processed: " \o Run.files[CHOOSE f \in Untouched : TRUE].path
  ELSE IF \E k \in Kinds : got[k] # Final[k] THEN "the messages counted are not those sent: " \o (CHOOSE k \in Kinds : got[k] # Final[k])
  ELSE IF Run.summary # <<>> /\ Run.summary # Counts(got) \o <<got.error + got.warning + got.help + got.info>> THEN "the summary does not show what was counted"
  ELSE IF Run.summary = <<>> THEN "there is no summary"
  ELSE IF Run.shown # <<>> /\ Run.shown # <<got.error - Cardinality(Failed) - Run.walkErrors, got.warning, got.help, got.info>> THEN "the findings printed are not those counted"
  ELSE IF Run.rc # ExitCode(Counts(got)) THEN "the exit code does not fit the findings"
  ELSE ""
(* P10 at the end                                                           *)
Healthy(f) == Run.files[f].fault = ""
FileFault(f) ==
  LET F == Run.files[f] IN
  IF ~Run.fix THEN IF F.after # F.before THEN "a file is changed without --fix" ELSE IF Healthy(f) /\ stage[f] # "reported" THEN "a file is not processed because of another one" ELSE ""
  ELSE IF F.fault = "endless" /\ stage[f] = "reported" THEN "a file is taken as fixed although it is not"
  ELSE IF stage[f] = "reported" /\ F.wrote THEN IF F.after # F.last THEN "a fixed file does not hold the fixed text" ELSE IF F.last = F.before THEN "a file is rewritten although nothing changed" ELSE ""
  ELSE IF F.after # F.before THEN (IF stage[f] = "reported" THEN "a file is changed that was not fixed" ELSE "a file is changed although fixing it failed")
  ELSE IF stage[f] = "reported" /\ F.last # F.before THEN "a file is not rewritten although fixing changed it"
  ELSE IF Healthy(f) /\ stage[f] # "reported" THEN "a file is not processed because of another one"
  ELSE IF F.fault = "unreadable" /\ stage[f] # "file" THEN "an unreadable file is processed"
  ELSE ""
BadFiles == { f \in 1..Len(Run.files) : FileFault(f) # "" }
OtherFault ==
  IF Run.others THEN "something else than the files was changed"
  ELSE IF BadFiles # {} THEN LET f == CHOOSE f \in BadFiles : TRUE IN FileFault(f) \o " (" \o Run.files[f].path \o ")"
  ELSE IF Failed # {} /\ (Run.rc # 1 \/ got.error < Cardinality(Failed)) THEN "a failure is not counted as an error"
  ELSE IF Untouched # {} THEN "a file is not processed: " \o Run.files[CHOOSE f \in Untouched : TRUE].path
  ELSE ""
EndFault == IF Property = "P12" THEN AccountFault ELSE OtherFault
Finish ==
  /\ verdict = "" /\ (Run.st # "ok" \/ i > Len(Run.events))
  /\ LET w == IF Run.st # "ok" THEN "the program did not end properly" ELSE TLCEval(EndFault) IN
     IF w = "" THEN PrintT("OK " \o ToString(Run.id)) /\ verdict' = "accepted"
     ELSE PrintT("REJECT " \o ToJson([id |-> Run.id, why |-> w, at |-> i])) /\ verdict' = "rejected"
  /\ UNCHANGED <<r, i, stage, sent, got>>
Spec == Init /\ [][Step \/ Finish]_vars
=============================================================================
