------------------------------- MODULE Meaning -------------------------------
(* What a template says: two syntax trees (see Rules for their form) with    *)
(* the same Content differ only in what --fix may change.                    *)
EXTENDS Rules

------------------------------------------------------------------------------
(* Whitespace that belongs to the content: in strings, and in the text of    *)
(* raw elements.                                                             *)
RECURSIVE Up(_, _, _)
(* the first element from n upwards that reaches at least to token c         *)
Up(T, n, c) == IF n = 0 THEN 0 ELSE IF ~IsToken(T, n) /\ T[n].l >= c THEN n ELSE Up(T, T[n].p, c)
RECURSIVE Solid(_, _)
Solid(T, n) == IF n = 0 THEN 0 ELSE IF T[n].k \in Trivia THEN Solid(T, T[n].nt) ELSE n
RECURSIVE SolidBefore(_, _)
SolidBefore(T, n) == IF n = 0 THEN 0 ELSE IF T[n].k \in Trivia THEN SolidBefore(T, T[n].pt) ELSE n
HoldsText(T, n) ==
  \/ T[n].k \in {"ROOT", "BODY", "HTML_TEXT", "HTML_STRING_INNER", "TWIG_LITERAL_STRING_INNER", "HTML_STRING", "TWIG_LITERAL_STRING"}
  \/ Child(T, n, "BODY") # 0
RECURSIVE WithinOf(_, _, _)
WithinOf(T, n, K) == n # 0 /\ (T[n].k \in K \/ WithinOf(T, T[n].p, K))
RECURSIVE InRaw(_, _)
InRaw(T, n) == n # 0 /\ (RawTag(T, n) \/ InRaw(T, T[n].p))
StringKinds == {"TWIG_LITERAL_STRING", "TWIG_LITERAL_STRING_INNER"}
ValueKinds == {"HTML_STRING", "HTML_STRING_INNER"}

RECURSIVE OneKindOfBreak(_)
OneKindOfBreak(x) == IF x = "" THEN "" ELSE (IF At(x, 1) = "\r" /\ Len(x) > 1 /\ At(x, 2) = "\n" THEN "" ELSE At(x, 1)) \o OneKindOfBreak(SubSeq(x, 2, Len(x)))
(* "" or the text of this whitespace token as far as it matters             *)
Space(T, n) ==
  LET p == SolidBefore(T, n)  c == Solid(T, n) IN
  IF p = 0 \/ c = 0 THEN ""
  ELSE LET r == Up(T, p, c) IN
       IF r = 0 THEN "" ELSE IF ~HoldsText(T, r) THEN ""
       ELSE IF T[r].k \in StringKinds \/ InRaw(T, r) THEN OneKindOfBreak(T[n].t)
       ELSE IF ~WithinOf(T, r, ValueKinds) THEN ""
       \* the lines of an attribute value may be indented
       ELSE IF T[n].k = "TK_WHITESPACE" /\ T[n].pt # 0 /\ T[T[n].pt].k = "TK_LINE_BREAK" THEN "" ELSE OneKindOfBreak(T[n].t)

------------------------------------------------------------------------------
QuoteKinds == {"TK_DOUBLE_QUOTES", "TK_SINGLE_QUOTES"}
Delimits(T, n) == T[n].k \in QuoteKinds /\ T[T[n].p].k \in {"TWIG_LITERAL_STRING", "HTML_STRING"}
NamesThing(T, n) == T[n].k = "TK_WORD" /\ T[T[n].p].k \in {"HTML_ATTRIBUTE", "TWIG_STARTING_BLOCK", "TWIG_ENDING_BLOCK"}
Word(T, n) ==
  CASE T[n].k = "TK_DOUBLE_AMPERSAND" /\ T[T[n].p].k = "TWIG_BINARY_EXPRESSION" -> "and"
    [] T[n].k = "TK_DOUBLE_PIPE" /\ T[T[n].p].k = "TWIG_BINARY_EXPRESSION" -> "or"
    [] T[n].k \in {"TK_EXTENDS", "TK_SW_EXTENDS"} -> "extends"
    [] NamesThing(T, n) -> "name:" \o Essence(T[n].t)
    [] OTHER -> T[n].t

(* {% extends "a" %}: a string without interpolation is all that sw_extends  *)
(* takes                                                                    *)
ExtendsString(T, n) ==
  LET e == Child(T, n, "TWIG_EXPRESSION")  str == Child(T, e, "TWIG_LITERAL_STRING") IN
  str # 0 /\ \A m \in str..T[str].l : T[m].k # "TWIG_LITERAL_STRING_INTERPOLATION"
ArgumentsOf(T, call) == IF call = 0 THEN 0 ELSE LET a == { m \in call..T[call].l : T[m].k = "TWIG_ARGUMENTS" } IN IF a = {} THEN 0 ELSE CHOOSE m \in a : \A o \in a : m <= o
(* x === y, or x is same as(y): the operands, <<>> if it is neither         *)
Sameness(T, b, op, test) ==
  LET o == Operator(T, b)  l == Before(T, b)  r == Behind(T, b) IN
  IF o = 0 \/ l = 0 \/ r = 0 THEN <<>>
  ELSE IF T[o].k = op THEN <<l, r>>
  ELSE IF T[o].k = test /\ TestName(T, b) # 0 /\ T[TestName(T, b)].t = "same as"
       THEN LET args == ArgumentsOf(T, Child(T, r, "TWIG_FUNCTION_CALL"))
                es == IF args = 0 THEN <<>> ELSE Children(T, args, "TWIG_EXPRESSION")
            IN IF Len(es) = 1 THEN <<l, es[1]>> ELSE <<>>
  ELSE <<>>
(* x|json_encode|raw, or x|escape('js')                                     *)
EscapesJs(T, f) ==
  LET n == PlainFilter(T, f) IN
  /\ n # 0
  /\ \/ T[n].t = "raw" /\ Encoded(T, Piped(T, f))
     \/ /\ T[n].t = "escape"
        /\ LET args == Child(T, Children(T, f, "TWIG_OPERAND")[2], "TWIG_ARGUMENTS") IN args # 0 /\ TrimmedText(T, args) \in {"('js')", "(\"js\")"}
PlainKey(T, k) ==
  LET str == Child(T, k, "TWIG_LITERAL_STRING")  inner == Child(T, str, "TWIG_LITERAL_STRING_INNER") IN
  IF str # 0 /\ inner # 0 /\ Len(T[inner].c) = 1 /\ IsToken(T, inner + 1) /\ T[inner + 1].k \notin Trivia THEN inner + 1 ELSE 0

RECURSIVE Content(_, _), Contents(_, _, _)
Contents(T, cs, i) == IF i > Len(cs) THEN <<>> ELSE Content(T, cs[i]) \o Contents(T, cs, i + 1)
Node(kind, inside) == <<"(" \o kind>> \o inside \o <<")">>
Content(T, n) ==
  IF IsToken(T, n) THEN
    IF T[n].k \in Trivia THEN LET s == Space(T, n) IN IF s = "" THEN <<>> ELSE <<"space:" \o s>>
    ELSE IF Delimits(T, n) THEN <<>>
    ELSE <<Word(T, n)>>
  ELSE
    LET inside == Contents(T, T[n].c, 1) IN
    CASE T[n].k \in {"HTML_TEXT", "HTML_STRING_INNER"} -> inside
      [] T[n].k \in {"TWIG_EXTENDS", "SHOPWARE_TWIG_SW_EXTENDS"} -> Node("EXTENDS", inside)
      [] T[n].k = "TWIG_EXPRESSION" /\ T[T[n].p].k = "TWIG_EXTENDS" /\ ExtendsString(T, T[n].p) -> inside
      [] T[n].k = "TWIG_LITERAL_HASH_KEY" /\ PlainKey(T, n) # 0 -> Node(T[n].k, <<T[PlainKey(T, n)].t>>)
      [] T[n].k = "TWIG_BINARY_EXPRESSION" /\ Sameness(T, n, "TK_TRIPLE_EQUAL", "TK_IS") # <<>> ->
           LET s == Sameness(T, n, "TK_TRIPLE_EQUAL", "TK_IS") IN Node("same", Content(T, s[1]) \o Content(T, s[2]))
      [] T[n].k = "TWIG_BINARY_EXPRESSION" /\ Sameness(T, n, "TK_EXCLAMATION_MARK_DOUBLE_EQUALS", "TK_IS_NOT") # <<>> ->
           LET s == Sameness(T, n, "TK_EXCLAMATION_MARK_DOUBLE_EQUALS", "TK_IS_NOT") IN Node("notsame", Content(T, s[1]) \o Content(T, s[2]))
      [] T[n].k = "TWIG_FILTER" /\ EscapesJs(T, n) -> Node("escapejs", Content(T, Children(T, n, "TWIG_OPERAND")[1]))
      [] OTHER -> Node(T[n].k, inside)

(* "" or what changed from tree A to tree B                                 *)
RECURSIVE FirstDifference(_, _, _)
FirstDifference(a, b, i) == IF i > Len(a) \/ i > Len(b) THEN i ELSE IF a[i] # b[i] THEN i ELSE FirstDifference(a, b, i + 1)
Show(a, i) == IF i > Len(a) THEN "the end" ELSE a[i]
ContentFault(A, B) ==
  LET a == Content(A, 1)  b == Content(B, 1) IN
  IF a = b THEN "" ELSE LET i == FirstDifference(a, b, 1) IN "the fixed template has another content: " \o Show(a, i) \o " became " \o Show(b, i)
=============================================================================
