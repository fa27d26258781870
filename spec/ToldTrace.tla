------------------------------ MODULE ToldTrace ------------------------------
(* Recorded output of real runs, with and without --verbose, against Told.   *)
EXTENDS Told, Json, IOUtils, TLC
Runs == ndJsonDeserialize(IOEnv.TRACE)
RuleNames == SetOf(JsonDeserialize(IOEnv.CONFIG_RULES))
VARIABLES r, verdict
vars == <<r, verdict>>
Init == r \in 1..Len(Runs) /\ verdict = ""
Layer(l) == [o \in { l[i].option : i \in 1..Len(l) } |-> LET i == CHOOSE i \in 1..Len(l) : l[i].option = o IN l[i].value]
(* R.read: "file", "none" (the words used where a file was read or not) or   *)
(* something else; R.variables: told variables with their values, R.set:     *)
(* those that are set; R.warned: the program's own version is in a warning   *)
Fault(R) ==
  LET default == Layer(R.default)  file == Layer(R.file)  env == Layer(R.env)
      effect == InEffect(default, file, env)
      flags == { o \in Flags : effect[o].v = "true" }
  IN IF R.unreadable \/ Aborts(default, file, env, RuleNames) THEN ""
     ELSE IF R.read # (IF R.there THEN "file" ELSE "none") THEN "it isn't told which configuration file is used"
     ELSE IF ~SameBag(R.variables, R.set) THEN "the variables of the environment aren't told"
     ELSE IF R.warned # Outdated(R.own, default, file, env, R) THEN "the version of the configuration is judged wrongly"
     ELSE IF R.warned /\ effect["version"].v # R.own /\ ~R.named THEN "the warning does not name the version of the configuration"
     ELSE IF ~R.verbose THEN IF Len(R.texts) > 0 THEN "values are told without being asked for" ELSE ""
     ELSE IF ~SameBag(R.texts, TextsInEffect(effect)) THEN "the values told are not those in effect"
     ELSE IF R.numbers # <<effect["format.indentation-count"].v>> THEN "the indentation told is not the one in effect"
     ELSE IF R.trues # Cardinality(flags) \/ R.falses # Cardinality(Flags) - Cardinality(flags) THEN "the truth values told are not those in effect"
     ELSE ""
Judge ==
  /\ verdict = ""
  /\ LET w == TLCEval(Fault(Runs[r])) IN
     IF w = "" THEN PrintT("OK " \o ToString(Runs[r].id)) /\ verdict' = "accepted"
     ELSE PrintT("REJECT " \o ToJson([id |-> Runs[r].id, why |-> w])) /\ verdict' = "rejected"
  /\ UNCHANGED r
Spec == Init /\ [][Judge]_vars
=============================================================================
