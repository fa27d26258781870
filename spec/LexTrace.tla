------------------------------- MODULE LexTrace -------------------------------
(* Trace validation of the parser's tokens: one behaviour per parsed text.  *)
(* The machine cuts the text into longest-match tokens and reads the leaves *)
(* of the real tree alongside; a leaf is one token or several neighbouring  *)
(* ones joined to one word.                                                 *)
EXTENDS Lexer, Json, IOUtils, Integers

Docs == ndJsonDeserialize(IOEnv.TRACE)
(* [id, st, text, leaves: <<kind, start, text>>.., errors: <<from, to>>..];  *)
(* positions count characters from 0; -1 is not on a character boundary     *)

VARIABLES d, pos, leaf, from, verdict
vars == <<d, pos, leaf, from, verdict>>

Init == d \in 1..Len(Docs) /\ pos = 1 /\ leaf = 1 /\ from = 1 /\ verdict = ""

Text == Docs[d].text
Leaves == Docs[d].leaves
ErrorsInside == \A k \in 1..Len(Docs[d].errors) :
                  LET e == Docs[d].errors[k] IN 0 <= e[1] /\ e[1] <= e[2] /\ e[2] <= Len(Text)

(* a name may be spelled like a keyword or with one character that is no    *)
(* token of its own                                                         *)
SameKind(lexed, k, i) == lexed[2] = k \/ (k = "TK_WORD" /\ (lexed[2] = "TK_UNKNOWN" \/ At(Text, i) \in WordCh \cup {"@", "#", "$"}))

LeafOk ==     \* the leaf is the piece of the text that is next
  /\ Leaves[leaf][2] = from - 1
  /\ Leaves[leaf][3] # ""
  /\ Is(Text, from, Leaves[leaf][3])

Why ==
  IF Docs[d].st # "ok" THEN "the parser did not return: " \o Docs[d].st
  ELSE IF ~ErrorsInside THEN "an error points outside of the text"
  ELSE IF pos > Len(Text) THEN (IF leaf <= Len(Leaves) THEN "more leaves than text" ELSE "")
  ELSE IF leaf > Len(Leaves) THEN "text is missing in the tree"
  ELSE IF ~LeafOk THEN "a leaf is not the next piece of the text"
  ELSE LET m == Munch(Text, pos)
           e == from + Len(Leaves[leaf][3])
       IN IF pos + m[1] > e THEN "a leaf ends inside of a token"
          ELSE IF pos = from /\ pos + m[1] = e /\ ~SameKind(m, Leaves[leaf][1], pos) THEN "a leaf has not the kind of its token"
          ELSE IF (pos # from \/ pos + m[1] # e) /\ Leaves[leaf][1] # "TK_WORD" THEN "tokens are joined to something that is no word"
          ELSE ""

Consume ==
  /\ verdict = "" /\ Why = "" /\ pos <= Len(Text)
  /\ LET m == Munch(Text, pos)
         e == from + Len(Leaves[leaf][3])
     IN /\ pos' = pos + m[1]
        /\ IF pos' = e THEN leaf' = leaf + 1 /\ from' = e ELSE UNCHANGED <<leaf, from>>
  /\ UNCHANGED <<d, verdict>>
Accept ==
  /\ verdict = "" /\ Why = "" /\ pos > Len(Text)
  /\ verdict' = "accepted" /\ PrintT("OK " \o ToString(Docs[d].id))
  /\ UNCHANGED <<d, pos, leaf, from>>
Reject ==
  /\ verdict = "" /\ Why # ""
  /\ verdict' = "rejected"
  /\ PrintT("REJECT " \o ToJson([id |-> Docs[d].id, why |-> Why, at |-> pos - 1, leaf |-> leaf]))
  /\ UNCHANGED <<d, pos, leaf, from>>
Next == Consume \/ Accept \/ Reject
Spec == Init /\ [][Next]_vars
=============================================================================
