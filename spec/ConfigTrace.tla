------------------------------ MODULE ConfigTrace ------------------------------
(* Recorded runs of the real program under sources of configuration values,  *)
(* against Config: the values in effect, or the way it ended.                *)
EXTENDS Config, Json, IOUtils, TLC
Runs == ndJsonDeserialize(IOEnv.TRACE)
RuleNames == SetOf(JsonDeserialize(IOEnv.CONFIG_RULES))
VARIABLES r, verdict
vars == <<r, verdict>>
Init == r \in 1..Len(Runs) /\ verdict = ""
(* a list of [option, value] as a function                                   *)
Layer(l) == [o \in { l[i].option : i \in 1..Len(l) } |-> LET i == CHOOSE i \in 1..Len(l) : l[i].option = o IN l[i].value]
Shown(x) == IF x.t = "list" THEN [i \in 1..Len(x.items) |-> x.items[i].v] ELSE <<x.v>>
LayersFault(R) ==
  LET default == Layer(R.default)  file == Layer(R.file)  env == Layer(R.env)  got == Layer(R.got)
      effect == InEffect(default, file, env)
      wrong == { o \in Options : IF o \in DOMAIN got THEN Shown(got[o]) # Shown(effect[o]) ELSE TRUE }
  IN IF DOMAIN default # Options THEN "the default configuration does not have all values"
     ELSE IF R.unreadable \/ Aborts(default, file, env, RuleNames) THEN
          IF R.rc # 1 THEN "an invalid configuration does not end the program with code 1"
          ELSE IF R.processed # 0 \/ R.changed THEN "files are processed with an invalid configuration" ELSE ""
     ELSE IF R.rc # 0 THEN "the program ends although the configuration is valid"
     ELSE IF wrong # {} THEN "a wrong value is in effect: " \o (CHOOSE o \in wrong : TRUE)
     ELSE IF R.processed # 1 THEN "the file is not processed"
     ELSE ""
CreateFault(R) ==
  IF R.touched THEN "creating the configuration changes other files"
  ELSE IF R.exists THEN IF R.after # R.before THEN "an existing file is overwritten" ELSE IF R.rc # 1 THEN "no error although the file exists" ELSE ""
  ELSE IF ~R.possible THEN IF R.rc # 1 THEN "no error although the file can't be written" ELSE ""
  ELSE IF R.rc # 0 THEN "the configuration is not created"
  ELSE IF ~R.loads THEN "the created configuration is not the default configuration"
  ELSE ""
Fault(R) == IF R.kind = "layers" THEN LayersFault(R) ELSE CreateFault(R)
Judge ==
  /\ verdict = ""
  /\ LET w == TLCEval(Fault(Runs[r])) IN
     IF w = "" THEN PrintT("OK " \o ToString(Runs[r].id)) /\ verdict' = "accepted"
     ELSE PrintT("REJECT " \o ToJson([id |-> Runs[r].id, why |-> w])) /\ verdict' = "rejected"
  /\ UNCHANGED r
Spec == Init /\ [][Judge]_vars
=============================================================================
