-------------------------------- MODULE Config --------------------------------
(* The configuration in effect: each value from the environment if set       *)
(* there, else from the configuration file, else the built-in default.  A    *)
(* value in effect that is not valid ends the program with code 1 before     *)
(* any file is processed.  Values are records [t, v, items]: type, text and, *)
(* for lists, items of the same form.                                        *)
EXTENDS Naturals, Sequences, FiniteSets
Options == {"version", "general.active-rules", "format.line-ending", "format.indentation-mode", "format.indentation-count", "format.indent-children-of-blocks",
            "format.linebreaks-around-blocks", "format.twig-quotation", "format.html-quotation", "twig.valid-filters", "twig.valid-tests", "twig.valid-functions"}
Words(o) == CASE o = "format.line-ending" -> {"unix_LF", "windows_CRLF"}
              [] o = "format.indentation-mode" -> {"space", "tab"}
              [] o \in {"format.twig-quotation", "format.html-quotation"} -> {"single", "double"}
              [] OTHER -> {}
Lists == {"general.active-rules", "twig.valid-filters", "twig.valid-tests", "twig.valid-functions"}
Flags == {"format.indent-children-of-blocks", "format.linebreaks-around-blocks"}
SetOf(l) == { l[i] : i \in 1..Len(l) }
(* n: the number of an integer, big: it is too big or negative               *)
Valid(o, x, rules) ==
  IF o \in Lists THEN IF x.t # "list" THEN FALSE
                      ELSE /\ \A y \in SetOf(x.items) : y.t = "string"
                           /\ o = "general.active-rules" => \A y \in SetOf(x.items) : y.v \in rules
  ELSE IF o \in Flags THEN x.t = "boolean"
  ELSE IF o = "format.indentation-count" THEN x.t = "integer" /\ x.inRange
  ELSE IF o = "version" THEN x.t = "string"
  ELSE x.t = "string" /\ x.v \in Words(o)
(* layers: functions from some of the options to values                      *)
Effective(o, default, file, env) == IF o \in DOMAIN env THEN env[o] ELSE IF o \in DOMAIN file THEN file[o] ELSE default[o]
InEffect(default, file, env) == [o \in DOMAIN default |-> Effective(o, default, file, env)]
Aborts(default, file, env, rules) == \E o \in DOMAIN default : ~Valid(o, Effective(o, default, file, env), rules)
=============================================================================
