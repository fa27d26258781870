------------------------------ MODULE ParseTrace ------------------------------
(* The real tree of a derived template against the tree its derivation      *)
(* prescribes.  A record has                                                *)
(*   rows      <<depth, kind, text>> of the derivation, in reading order    *)
(*   real      the same of the real tree                                    *)
(*   errors    number of reported errors                                    *)
(*   mode      "equal"   the trees are the same and there is no error       *)
(*             "damaged" there is at least one error                        *)
(*             "local"   at row `at` a malformed element was inserted at    *)
(*                       depth `depth`: there is at least one error, and    *)
(*                       everything around the element is as derived        *)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils

Docs == ndJsonDeserialize(IOEnv.TRACE)
Trivia == {"TK_WHITESPACE", "TK_LINE_BREAK"}

VARIABLES d, verdict
vars == <<d, verdict>>
Init == d \in 1..Len(Docs) /\ verdict = ""

Rows(r) == SelectSeq(r, LAMBDA x : x[2] \notin Trivia)

RECURSIVE FirstDiff(_, _, _)
FirstDiff(a, b, k) ==
  IF k > Len(a) /\ k > Len(b) THEN 0
  ELSE IF k > Len(a) \/ k > Len(b) \/ a[k] # b[k] THEN k
  ELSE FirstDiff(a, b, k + 1)

(* Plain text directly behind the malformed element may be joined to it.    *)
RECURSIVE SkipText(_, _, _)
SkipText(rows, k, depth) == IF k <= Len(rows) /\ rows[k][1] > depth THEN SkipText(rows, k + 1, depth) ELSE k
Behind(r) ==
  LET k == r.at + 1 IN
  IF k <= Len(r.rows) /\ r.rows[k][2] = "HTML_TEXT" THEN SkipText(r.rows, k + 1, r.rows[k][1]) ELSE k

WhyLocal(r) ==
  LET real == Rows(r.real)
      tail == Len(r.rows) - Behind(r) + 1        \* rows behind the place
  IN IF r.errors = 0 THEN "the malformed element is accepted silently"
     ELSE IF Len(real) < r.at + tail THEN "rows are missing"
     ELSE IF SubSeq(real, 1, r.at) # SubSeq(r.rows, 1, r.at) THEN "the elements before the malformed one changed"
     ELSE IF SubSeq(real, Len(real) - tail + 1, Len(real)) # SubSeq(r.rows, Behind(r), Len(r.rows)) THEN "the elements behind the malformed one changed"
     ELSE IF \E k \in (r.at + 1)..(Len(real) - tail) : real[k][1] < r.depth THEN "the malformed element leaves its place"
     ELSE ""

Why ==
  LET r == Docs[d] IN
  IF r.st # "ok" THEN "the parser did not return: " \o r.st
  ELSE IF r.mode = "equal" THEN
    (IF r.errors > 0 THEN "a valid template is reported as malformed"
     ELSE IF Rows(r.real) # r.rows THEN "the tree is not the one the text spells out"
     ELSE "")
  ELSE IF r.mode = "damaged" THEN (IF r.errors = 0 THEN "the damage is accepted silently" ELSE "")
  ELSE WhyLocal(r)

Judge ==
  /\ verdict = ""
  /\ verdict' = IF Why = "" THEN "accepted" ELSE "rejected"
  /\ IF Why = "" THEN PrintT("OK " \o ToString(Docs[d].id))
     ELSE LET k == IF Docs[d].mode = "equal" THEN FirstDiff(Docs[d].rows, Rows(Docs[d].real), 1) ELSE 0
              real == Rows(Docs[d].real)
          IN PrintT("REJECT " \o ToJson([id |-> Docs[d].id, why |-> Why, row |-> k,
               expected |-> IF k > 0 /\ k <= Len(Docs[d].rows) THEN Docs[d].rows[k] ELSE <<>>,
               found |-> IF k > 0 /\ k <= Len(real) THEN real[k] ELSE <<>>]))
  /\ UNCHANGED d
Next == Judge
Spec == Init /\ [][Next]_vars
=============================================================================
