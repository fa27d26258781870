------------------------------ MODULE ErrorTrace ------------------------------
(* Where syntax errors point to.  A record has the errors of a real parse,   *)
(* <<from, to, kind of the token found there, or "" at the end>> (characters *)
(* from 0), and                                                              *)
(*  mode "token"      any text: each error points to one token of it, and    *)
(*                    names it; at the end of the text to its last token     *)
(*  mode "beginning"  `rows` of a derived template, cut before row `cut`:    *)
(*                    what is left can be continued, so nothing is wrong     *)
(*                    before its end                                         *)
(*  mode "element"    a malformed element behind row `at` of a derived       *)
(*                    template: errors lie in it or at the next token        *)
(*  mode "stray"      a token that no place of Twig code (or of an HTML tag) *)
(*                    takes, before row `cut` of a derived template: the     *)
(*                    first error points to exactly it                       *)
EXTENDS Lexer, Json, IOUtils, Integers
Docs == ndJsonDeserialize(IOEnv.TRACE)
Trivia == {"TK_WHITESPACE", "TK_LINE_BREAK"}
VARIABLES d, pos, last, verdict
vars == <<d, pos, last, verdict>>
Init == d \in 1..Len(Docs) /\ pos = 1 /\ last = <<0, 0>> /\ verdict = ""
D == Docs[d]
Here(from, to) == { i \in 1..Len(D.errors) : D.errors[i][3] # "" /\ from <= D.errors[i][1] /\ D.errors[i][1] < to }
(* a name may be spelled like a keyword                                      *)
(* the token at pos against the errors that begin in it                      *)
TokenFault(m) ==
  LET from == pos - 1
      to == pos - 1 + m[1]
      e == Here(from, to)
  IN IF \E i \in e : D.errors[i][1] # from \/ D.errors[i][2] # to THEN "an error points to something that is no token"
     ELSE IF \E i \in e : m[2] \in Trivia THEN "an error points to whitespace"
     ELSE IF \E i \in e : D.errors[i][3] # m[2] /\ ~(D.errors[i][3] = "TK_WORD" /\ At(D.text, pos) \in WordCh) THEN "an error names something else than what it points to"
     ELSE ""
EndFault ==
  IF \E i \in 1..Len(D.errors) : D.errors[i][3] = "" /\ (D.errors[i][1] # last[1] \/ D.errors[i][2] # last[2]) THEN "an error at the end of the text points to something else"
  ELSE IF \E i \in 1..Len(D.errors) : D.errors[i][1] < 0 \/ D.errors[i][1] >= Len(D.text) THEN "an error points outside of the text"
  ELSE ""
(* is a quoted attribute value open there?  A `>` in a value whose quote is  *)
(* missing ends the tag, so such a beginning is read differently             *)
RECURSIVE Inside(_, _, _)
Inside(rows, k, depth) ==
  IF k = 0 THEN FALSE
  ELSE IF rows[k][1] < depth THEN rows[k][2] = "HTML_STRING" \/ Inside(rows, k - 1, rows[k][1])
  ELSE Inside(rows, k - 1, depth)
BeginningFault ==
  IF Inside(D.rows, D.cut - 1, D.rows[D.cut][1]) THEN ""
  ELSE IF \E i \in 1..Len(D.errors) : D.errors[i][3] # "" /\ ~(D.errors[i][3] = "TK_LESS_THAN_SLASH" /\ D.rows[D.before][3] = "</" /\ D.errors[i][1] = D.lastFrom)
       THEN "an error before the end of a text that can be continued" ELSE ""
(* rows: those derived; real: <<depth, kind, text, from, to>>                *)
RECURSIVE SkipText(_, _, _)
SkipText(rows, k, depth) == IF k <= Len(rows) /\ rows[k][1] > depth THEN SkipText(rows, k + 1, depth) ELSE k
Behind == LET k == D.at + 1 IN IF k <= Len(D.rows) /\ D.rows[k][2] = "HTML_TEXT" THEN SkipText(D.rows, k + 1, D.rows[k][1]) ELSE k
RECURSIVE LastLeaf(_), FirstLeaf(_)
LastLeaf(k) == IF k = 0 THEN 0 ELSE IF D.real[k][3] # "" THEN D.real[k][5] ELSE LastLeaf(k - 1)
FirstLeaf(k) == IF k > Len(D.real) THEN 1000000 ELSE IF D.real[k][3] # "" THEN D.real[k][5] ELSE FirstLeaf(k + 1)
ElementFault ==
  LET tail == Len(D.rows) - Behind + 1
      lo == LastLeaf(D.at)
      hi == FirstLeaf(Len(D.real) - tail + 1)
  IN IF Len(D.errors) = 0 THEN "there is no error"
     ELSE IF \E i \in 1..Len(D.errors) : D.errors[i][1] < lo THEN "an error before the malformed element"
     ELSE IF \E i \in 1..Len(D.errors) : D.errors[i][2] > hi THEN "an error behind the malformed element"
     ELSE ""
(* the nearest leaf before row k, and the kinds of the nodes open at row k   *)
RECURSIVE LeafBefore(_, _), Open(_, _, _)
LeafBefore(rows, k) == IF k = 0 THEN 0 ELSE IF rows[k][3] # "" THEN k ELSE LeafBefore(rows, k - 1)
Open(rows, k, depth) ==
  IF k = 0 THEN <<>>
  ELSE IF rows[k][1] < depth THEN <<rows[k][2]>> \o Open(rows, k - 1, rows[k][1])
  ELSE Open(rows, k - 1, depth)
TwigOpen == {"{{", "{{-", "{{~", "{%", "{%-", "{%~"}
TwigClose == {"}}", "-}}", "~}}", "%}", "-%}", "~%}", "#}", "-#}", "~#}", "-->"}
RECURSIVE InTwig(_, _)
InTwig(rows, k) == IF k = 0 THEN FALSE ELSE IF rows[k][3] \in TwigOpen THEN TRUE ELSE IF rows[k][3] \in TwigClose THEN FALSE ELSE InTwig(rows, k - 1)
Opaque == {"TWIG_LITERAL_STRING", "HTML_COMMENT", "TWIG_COMMENT", "LUDTWIG_DIRECTIVE_IGNORE", "LUDTWIG_DIRECTIVE_FILE_IGNORE"}
(* what the place before row `cut` is: Twig code, an HTML tag or neither.    *)
(* `before` is the row of the leaf in front of it                            *)
HasAny(open, kinds) == \E i \in 1..Len(open) : open[i] \in kinds
(* what decides in HTML: the innermost tag, string or Twig construct         *)
RECURSIVE Nearest(_)
Nearest(open) ==
  IF open = <<>> THEN ""
  ELSE IF open[1] \in {"HTML_STARTING_TAG", "HTML_ENDING_TAG"} THEN "tag"
  ELSE IF open[1] \in {"HTML_ATTRIBUTE", "HTML_ATTRIBUTE_LIST"} THEN Nearest(Tail(open))
  ELSE "other"
Place ==
  LET open == Open(D.rows, D.cut - 1, D.rows[D.cut][1])
      b == LeafBefore(D.rows, D.cut - 1)
  IN IF HasAny(open, Opaque) THEN ""
     ELSE IF InTwig(D.rows, D.cut - 1) THEN "twig"
     ELSE IF b # 0 THEN (IF D.rows[b][3] \notin {"<", "</"} /\ D.rows[D.cut][3] \notin {"<", "</"} /\ Nearest(open) = "tag" THEN "tag" ELSE "")
     ELSE ""
NotInTwig == {";", "€", "@", "`", "$", "\\", "&amp;", "<!--", "{{", "{%", "<!", "{#", "/>"}
NotInTags == {";", "`", ")", "}}", "%}", "|", "&amp;", "[", "12"}
First == CHOOSE i \in 1..Len(D.errors) : \A j \in 1..Len(D.errors) : D.errors[i][1] <= D.errors[j][1]
StrayFault ==
  LET place == Place
  IN IF (place = "twig" /\ D.stray \in NotInTwig) \/ (place = "tag" /\ D.stray \in NotInTags)
     THEN (IF Len(D.errors) = 0 THEN "there is no error for a stray token"
           ELSE IF D.errors[First][1] # D.from \/ D.errors[First][2] # D.to THEN "the first error does not point to the stray token"
           ELSE "")
     ELSE ""
Fault == IF D.st # "ok" THEN "the parser did not return: " \o D.st
         ELSE IF D.mode = "beginning" THEN BeginningFault
         ELSE IF D.mode = "element" THEN ElementFault
         ELSE IF D.mode = "stray" THEN StrayFault
         ELSE IF pos > Len(D.text) THEN EndFault ELSE TokenFault(Munch(D.text, pos))
Consume ==
  /\ verdict = "" /\ (IF D.mode = "token" /\ D.st = "ok" THEN pos <= Len(D.text) ELSE FALSE) /\ Fault = ""
  /\ LET m == Munch(D.text, pos) IN pos' = pos + m[1] /\ last' = <<pos - 1, pos - 1 + m[1]>>
  /\ UNCHANGED <<d, verdict>>
Accept ==
  /\ verdict = "" /\ (IF D.mode = "token" THEN pos > Len(D.text) ELSE TRUE) /\ Fault = ""
  /\ verdict' = "accepted" /\ PrintT("OK " \o ToString(D.id))
  /\ UNCHANGED <<d, pos, last>>
Reject ==
  /\ verdict = "" /\ Fault # ""
  /\ verdict' = "rejected" /\ PrintT("REJECT " \o ToJson([id |-> D.id, why |-> Fault]))
  /\ UNCHANGED <<d, pos, last>>
Next == Consume \/ Accept \/ Reject
Spec == Init /\ [][Next]_vars
=============================================================================
