------------------------------- MODULE Layout -------------------------------
(* How the tokens of a derivation are written down: what may stand between  *)
(* two tokens without changing how the text is cut into tokens.             *)
EXTENDS Naturals, Sequences, TLC

PunctTexts == {".", "..", "...", ",", ":", ";", "!", "!=", "!==", "?", "??", "%", "~", "|", "||", "&", "&&", "/", "//",
  "\\", "(", ")", "{", "}", "[", "]", "<", "<=", "<=>", "</", "<!", ">", ">=", "=>", "/>", "<!--", "-->", "=", "==", "===",
  "+", "-", "*", "**", "\"", "'", "{%", "{%-", "{%~", "%}", "-%}", "~%}", "{{", "{{-", "{{~", "}}", "-}}", "~}}",
  "{#", "{#-", "{#~", "#}", "-#}", "~#}", "#"}
MinusFirst == {"-", "-->", "-%}", "-}}", "-#}"}

(* would the two texts be cut differently if nothing stood between them?    *)
Merges(p, n) ==
  LET pw == p \notin PunctTexts
      nw == n \notin PunctTexts
  IN CASE pw /\ nw -> TRUE
       [] p = "\\" -> n \in {"\"", "'", "\\", "#"}
       [] p = "#" /\ SubSeq(n, 1, 1) = "{" -> TRUE
       [] pw /\ ~nw -> n \in MinusFirst
       [] ~pw /\ nw -> p \in {"#", "&", "&&", "<", "."}
       [] OTHER -> LET s == p \o n
                   IN \E t \in PunctTexts : Len(t) > Len(p) /\ Len(t) <= Len(s) /\ SubSeq(s, 1, Len(t)) = t

Styles == 8
Gaps ==
  << <<"">>,
     <<" ">>,
     <<"", " ", "\n", " ", "\n    ">>,
     <<"", " ", "\r\n", " ", "\r\n    ">>,
     <<"", " ", "  ", "\n", "\n    ", "\t", "\r\n", "\n\n", "\n \n", "\r\n\t", "\n\t\n  ", "\n  \r\n">>,
     <<"", " ", "">>,
     <<" ", "\n", "\n  ">>,
     <<"", " ", " ", "\n">> >>
Gap(style, i) == Gaps[style][(i % Len(Gaps[style])) + 1]
=============================================================================
