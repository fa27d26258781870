---------------------------------- MODULE App ----------------------------------
(* A run of the program over some files, as seen from outside: the steps of  *)
(* each file, the messages that reach the output, the summary and exit code. *)
EXTENDS Naturals, Sequences, FiniteSets

Kinds == {"file", "error", "warning", "help", "info", "message"}
None == [k \in Kinds |-> 0]
RECURSIVE SumOf(_, _)
SumOf(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN f[x] + SumOf(f, S \ {x})

(* the steps of one file: each may follow these                             *)
Follows(ev, fix) ==
  CASE ev = "file"     -> {"new"}
    [] ev = "checked"  -> IF fix THEN {"file", "chosen"} ELSE {"file"}
    [] ev = "chosen"   -> IF fix THEN {"checked"} ELSE {}
    [] ev = "write"    -> IF fix THEN {"checked"} ELSE {}
    [] ev = "reported" -> {"checked", "write"}

(* messages a reported file leads to; c: its findings of each severity      *)
MessagesOf(c, inspect) == [file |-> 0, error |-> c.syntax + c.error, warning |-> c.warning, help |-> c.help, info |-> c.info + (IF inspect THEN 1 ELSE 0), message |-> 1]
Plus(a, b) == [k \in Kinds |-> a[k] + b[k]]

Counts(got) == <<got.file, got.error, got.warning, got.help, got.info>>
ExitCode(c) == IF c[1] > 0 /\ (c[2] > 0 \/ c[3] > 0 \/ c[4] > 0) THEN 1 ELSE 0
=============================================================================
