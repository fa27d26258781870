-------------------------------- MODULE Lexer --------------------------------
(* The lexical grammar: Munch(s, i) is the longest piece of s that starts   *)
(* at i and is a token, with its kind.  Where two kinds match the same      *)
(* piece, the fixed spelling wins over the class of words.                  *)
(* Characters outside of ASCII never belong to a token.                     *)
EXTENDS Naturals, Sequences, TLC

Lower  == {"a","b","c","d","e","f","g","h","i","j","k","l","m","n","o","p","q","r","s","t","u","v","w","x","y","z"}
Upper  == {"A","B","C","D","E","F","G","H","I","J","K","L","M","N","O","P","Q","R","S","T","U","V","W","X","Y","Z"}
Alpha  == Lower \cup Upper
Digit  == {"0","1","2","3","4","5","6","7","8","9"}
HexDig == Digit \cup {"a","b","c","d","e","f","A","B","C","D","E","F"}
AlNum  == Alpha \cup Digit
WordCh == AlNum \cup {"_", "-"}
Blank  == {" ", "\t"}

At(s, i) == IF i < 1 \/ i > Len(s) THEN "" ELSE SubSeq(s, i, i)
Is(s, i, x) == i + Len(x) - 1 <= Len(s) /\ SubSeq(s, i, i + Len(x) - 1) = x

RECURSIVE Run(_, _, _)
(* end of the longest run of characters of the class c from i on            *)
Run(s, i, c) == IF At(s, i) \in c THEN Run(s, i + 1, c) ELSE i

RECURSIVE Breaks(_, _)
Breaks(s, i) == IF At(s, i) = "\n" THEN Breaks(s, i + 1) ELSE IF Is(s, i, "\r\n") THEN Breaks(s, i + 2) ELSE i

UpperSeq == "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
LowerSeq == "abcdefghijklmnopqrstuvwxyz"
LowerOf == [c \in Upper |-> LET k == CHOOSE k \in 1..26 : SubSeq(UpperSeq, k, k) = c IN SubSeq(LowerSeq, k, k)]
RECURSIVE ToLower(_)
ToLower(x) == IF x = "" THEN "" ELSE LET c == SubSeq(x, 1, 1) IN (IF c \in Upper THEN LowerOf[c] ELSE c) \o ToLower(SubSeq(x, 2, Len(x)))

Punct == [p \in {".", "..", "...", ",", ":", ";", "!", "!=", "!==", "?", "??", "%", "~", "|", "||", "&", "&&", "/", "//",
  "\\", "(", ")", "{", "}", "[", "]", "<", "<=", "<=>", "</", "<!", ">", ">=", "=>", "/>", "<!--", "-->", "=", "==", "===",
  "+", "-", "*", "**", "\"", "'", "`", "{%", "{%-", "{%~", "%}", "-%}", "~%}", "{{", "{{-", "{{~", "}}", "-}}", "~}}",
  "{#", "{#-", "{#~", "#}", "-#}", "~#}", "#"} |->
  (CASE p = "." -> "TK_DOT" [] p = ".." -> "TK_DOUBLE_DOT" [] p = "..." -> "TK_TRIPLE_DOT" [] p = "," -> "TK_COMMA"
     [] p = ":" -> "TK_COLON" [] p = ";" -> "TK_SEMICOLON" [] p = "!" -> "TK_EXCLAMATION_MARK"
     [] p = "!=" -> "TK_EXCLAMATION_MARK_EQUALS" [] p = "!==" -> "TK_EXCLAMATION_MARK_DOUBLE_EQUALS"
     [] p = "?" -> "TK_QUESTION_MARK" [] p = "??" -> "TK_DOUBLE_QUESTION_MARK" [] p = "%" -> "TK_PERCENT" [] p = "~" -> "TK_TILDE"
     [] p = "|" -> "TK_SINGLE_PIPE" [] p = "||" -> "TK_DOUBLE_PIPE" [] p = "&" -> "TK_AMPERSAND" [] p = "&&" -> "TK_DOUBLE_AMPERSAND"
     [] p = "/" -> "TK_FORWARD_SLASH" [] p = "//" -> "TK_DOUBLE_FORWARD_SLASH" [] p = "\\" -> "TK_BACKWARD_SLASH"
     [] p = "(" -> "TK_OPEN_PARENTHESIS" [] p = ")" -> "TK_CLOSE_PARENTHESIS" [] p = "{" -> "TK_OPEN_CURLY" [] p = "}" -> "TK_CLOSE_CURLY"
     [] p = "[" -> "TK_OPEN_SQUARE" [] p = "]" -> "TK_CLOSE_SQUARE" [] p = "<" -> "TK_LESS_THAN" [] p = "<=" -> "TK_LESS_THAN_EQUAL"
     [] p = "<=>" -> "TK_LESS_THAN_EQUAL_GREATER_THAN" [] p = "</" -> "TK_LESS_THAN_SLASH" [] p = "<!" -> "TK_LESS_THAN_EXCLAMATION_MARK"
     [] p = ">" -> "TK_GREATER_THAN" [] p = ">=" -> "TK_GREATER_THAN_EQUAL" [] p = "=>" -> "TK_EQUAL_GREATER_THAN"
     [] p = "/>" -> "TK_SLASH_GREATER_THAN" [] p = "<!--" -> "TK_LESS_THAN_EXCLAMATION_MARK_MINUS_MINUS" [] p = "-->" -> "TK_MINUS_MINUS_GREATER_THAN"
     [] p = "=" -> "TK_EQUAL" [] p = "==" -> "TK_DOUBLE_EQUAL" [] p = "===" -> "TK_TRIPLE_EQUAL" [] p = "+" -> "TK_PLUS" [] p = "-" -> "TK_MINUS"
     [] p = "*" -> "TK_STAR" [] p = "**" -> "TK_DOUBLE_STAR" [] p = "\"" -> "TK_DOUBLE_QUOTES" [] p = "'" -> "TK_SINGLE_QUOTES"
     [] p = "{%" -> "TK_CURLY_PERCENT" [] p = "{%-" -> "TK_CURLY_PERCENT_MINUS" [] p = "{%~" -> "TK_CURLY_PERCENT_TILDE"
     [] p = "%}" -> "TK_PERCENT_CURLY" [] p = "-%}" -> "TK_MINUS_PERCENT_CURLY" [] p = "~%}" -> "TK_TILDE_PERCENT_CURLY"
     [] p = "{{" -> "TK_OPEN_CURLY_CURLY" [] p = "{{-" -> "TK_OPEN_CURLY_CURLY_MINUS" [] p = "{{~" -> "TK_OPEN_CURLY_CURLY_TILDE"
     [] p = "}}" -> "TK_CLOSE_CURLY_CURLY" [] p = "-}}" -> "TK_MINUS_CLOSE_CURLY_CURLY" [] p = "~}}" -> "TK_TILDE_CLOSE_CURLY_CURLY"
     [] p = "{#" -> "TK_OPEN_CURLY_HASHTAG" [] p = "{#-" -> "TK_OPEN_CURLY_HASHTAG_MINUS" [] p = "{#~" -> "TK_OPEN_CURLY_HASHTAG_TILDE"
     [] p = "#}" -> "TK_HASHTAG_CLOSE_CURLY" [] p = "-#}" -> "TK_MINUS_HASHTAG_CLOSE_CURLY" [] p = "~#}" -> "TK_TILDE_HASHTAG_CLOSE_CURLY"
     [] p = "#" -> "TK_HASHTAG" [] OTHER -> "TK_GRAVE_ACCENT_QUOTES")]

Keyword == [w \in {"block", "endblock", "if", "elseif", "else", "endif", "apply", "endapply", "autoescape", "endautoescape", "cache",
  "endcache", "deprecated", "do", "embed", "endembed", "extends", "flush", "for", "endfor", "from", "import", "macro", "endmacro",
  "sandbox", "endsandbox", "set", "endset", "use", "verbatim", "endverbatim", "only", "with", "endwith", "ttl", "tags", "props",
  "component", "endcomponent", "or", "and", "b-or", "b-xor", "b-and", "in", "matches", "even", "odd", "defined", "as", "constant",
  "empty", "iterable", "max", "min", "range", "cycle", "random", "date", "include", "source", "trans", "endtrans", "sw_extends",
  "sw_silent_feature_call", "endsw_silent_feature_call", "sw_include", "return", "sw_icon", "sw_thumbnails", "style", "sw_embed",
  "sw_end_embed", "sw_use", "sw_import", "sw_from", "not", "is"} |->
  (CASE w = "elseif" -> "TK_ELSE_IF" [] w = "b-or" -> "TK_BINARY_OR" [] w = "b-xor" -> "TK_BINARY_XOR" [] w = "b-and" -> "TK_BINARY_AND"
     [] w = "block" -> "TK_BLOCK" [] w = "endblock" -> "TK_ENDBLOCK" [] w = "if" -> "TK_IF" [] w = "else" -> "TK_ELSE" [] w = "endif" -> "TK_ENDIF"
     [] w = "apply" -> "TK_APPLY" [] w = "endapply" -> "TK_ENDAPPLY" [] w = "autoescape" -> "TK_AUTOESCAPE" [] w = "endautoescape" -> "TK_ENDAUTOESCAPE"
     [] w = "cache" -> "TK_CACHE" [] w = "endcache" -> "TK_ENDCACHE" [] w = "deprecated" -> "TK_DEPRECATED" [] w = "do" -> "TK_DO"
     [] w = "embed" -> "TK_EMBED" [] w = "endembed" -> "TK_ENDEMBED" [] w = "extends" -> "TK_EXTENDS" [] w = "flush" -> "TK_FLUSH"
     [] w = "for" -> "TK_FOR" [] w = "endfor" -> "TK_ENDFOR" [] w = "from" -> "TK_FROM" [] w = "import" -> "TK_IMPORT" [] w = "macro" -> "TK_MACRO"
     [] w = "endmacro" -> "TK_ENDMACRO" [] w = "sandbox" -> "TK_SANDBOX" [] w = "endsandbox" -> "TK_ENDSANDBOX" [] w = "set" -> "TK_SET"
     [] w = "endset" -> "TK_ENDSET" [] w = "use" -> "TK_USE" [] w = "verbatim" -> "TK_VERBATIM" [] w = "endverbatim" -> "TK_ENDVERBATIM"
     [] w = "only" -> "TK_ONLY" [] w = "with" -> "TK_WITH" [] w = "endwith" -> "TK_ENDWITH" [] w = "ttl" -> "TK_TTL" [] w = "tags" -> "TK_TAGS"
     [] w = "props" -> "TK_PROPS" [] w = "component" -> "TK_COMPONENT" [] w = "endcomponent" -> "TK_ENDCOMPONENT" [] w = "or" -> "TK_OR"
     [] w = "and" -> "TK_AND" [] w = "in" -> "TK_IN" [] w = "matches" -> "TK_MATCHES" [] w = "even" -> "TK_EVEN" [] w = "odd" -> "TK_ODD"
     [] w = "defined" -> "TK_DEFINED" [] w = "as" -> "TK_AS" [] w = "constant" -> "TK_CONSTANT" [] w = "empty" -> "TK_EMPTY"
     [] w = "iterable" -> "TK_ITERABLE" [] w = "max" -> "TK_MAX" [] w = "min" -> "TK_MIN" [] w = "range" -> "TK_RANGE" [] w = "cycle" -> "TK_CYCLE"
     [] w = "random" -> "TK_RANDOM" [] w = "date" -> "TK_DATE" [] w = "include" -> "TK_INCLUDE" [] w = "source" -> "TK_SOURCE"
     [] w = "trans" -> "TK_TRANS" [] w = "endtrans" -> "TK_ENDTRANS" [] w = "sw_extends" -> "TK_SW_EXTENDS"
     [] w = "sw_silent_feature_call" -> "TK_SW_SILENT_FEATURE_CALL" [] w = "endsw_silent_feature_call" -> "TK_ENDSW_SILENT_FEATURE_CALL"
     [] w = "sw_include" -> "TK_SW_INCLUDE" [] w = "return" -> "TK_RETURN" [] w = "sw_icon" -> "TK_SW_ICON" [] w = "sw_thumbnails" -> "TK_SW_THUMBNAILS"
     [] w = "style" -> "TK_STYLE" [] w = "sw_embed" -> "TK_SW_EMBED" [] w = "sw_end_embed" -> "TK_SW_END_EMBED" [] w = "sw_use" -> "TK_SW_USE"
     [] w = "sw_import" -> "TK_SW_IMPORT" [] w = "sw_from" -> "TK_SW_FROM" [] w = "not" -> "TK_NOT" [] OTHER -> "TK_IS")]
(* spelled in upper or lower case                                           *)
AnyCase == [w \in {"doctype", "true", "false", "none", "null", "ludtwig-ignore-file", "ludtwig-ignore"} |->
  (CASE w = "doctype" -> "TK_DOCTYPE" [] w = "true" -> "TK_TRUE" [] w = "false" -> "TK_FALSE" [] w = "none" -> "TK_NONE" [] w = "null" -> "TK_NULL"
     [] w = "ludtwig-ignore-file" -> "TK_LUDTWIG_IGNORE_FILE" [] OTHER -> "TK_LUDTWIG_IGNORE")]
TwoWords == << <<"ignore missing", "TK_IGNORE_MISSING">>, <<"starts with", "TK_STARTS_WITH">>, <<"ends with", "TK_ENDS_WITH">>,
               <<"same as", "TK_SAME_AS">>, <<"divisible by", "TK_DIVISIBLE_BY">> >>

WordKind(w) ==
  IF w \in DOMAIN Keyword THEN Keyword[w]
  ELSE IF Len(w) \in {4, 5, 7, 14, 19} /\ ToLower(w) \in DOMAIN AnyCase THEN AnyCase[ToLower(w)]
  ELSE "TK_WORD"

(* twig(:name)+                                                             *)
RECURSIVE Component(_, _)
Component(s, i) ==       \* i: behind "twig" or a name; 0 if there is no further name
  IF At(s, i) = ":" /\ At(s, i + 1) \in WordCh THEN LET e == Run(s, i + 1, WordCh) f == Component(s, e) IN IF f = 0 THEN e ELSE f ELSE 0

Word(s, i) ==
  LET e == IF At(s, i) = "_" THEN Run(s, i, WordCh)
           ELSE IF At(s, i) \in Alpha THEN Run(s, i, WordCh)
           ELSE IF At(s, i) \in {"@", "#", "$"} /\ At(s, i + 1) \in Alpha THEN Run(s, i + 1, WordCh)
           ELSE i
      w == SubSeq(s, i, e - 1)
      c == IF Is(s, i, "twig:") THEN Component(s, i + 4) ELSE 0
      t == { k \in 1..Len(TwoWords) : Is(s, i, TwoWords[k][1]) /\ Len(TwoWords[k][1]) > e - i }
  IN IF c > e THEN <<c - i, "TK_TWIG_COMPONENT_NAME">>
     ELSE IF t # {} THEN LET k == CHOOSE k \in t : TRUE IN <<Len(TwoWords[k][1]), TwoWords[k][2]>>
     ELSE IF w = "not" /\ Is(s, e, " in") /\ At(s, e + 3) \notin WordCh THEN <<6, "TK_NOT_IN">>
     ELSE IF w = "is" /\ Is(s, e, " not") /\ At(s, e + 4) \notin WordCh THEN <<6, "TK_IS_NOT">>
     ELSE <<e - i, WordKind(w)>>

Number(s, i) ==
  LET a == Run(s, i, Digit)
      b == IF At(s, a) = "." /\ At(s, a + 1) \in Digit THEN Run(s, a + 1, Digit) ELSE a
      c == IF At(s, b) \in {"E", "e"} /\ At(s, b + 1) \in {"+", "-"} /\ At(s, b + 2) \in Digit THEN Run(s, b + 2, Digit) ELSE b
  IN c - i

Escape(s, i) ==      \* length of a HTML escape at i, 0 if there is none
  LET e == IF At(s, i + 1) = "#" /\ At(s, i + 2) = "x" THEN (IF Run(s, i + 3, HexDig) > i + 3 THEN Run(s, i + 3, HexDig) ELSE 0)
           ELSE IF At(s, i + 1) = "#" THEN (IF Run(s, i + 2, Digit) > i + 2 THEN Run(s, i + 2, Digit) ELSE 0)
           ELSE IF At(s, i + 1) \in Alpha THEN Run(s, i + 2, AlNum) ELSE 0
  IN IF e # 0 /\ At(s, e) = ";" THEN e + 1 - i ELSE 0

Sign(s, i) ==
  LET x(n) == IF i + n - 1 <= Len(s) THEN SubSeq(s, i, i + n - 1) ELSE ""
      n    == IF x(4) \in DOMAIN Punct THEN 4 ELSE IF x(3) \in DOMAIN Punct THEN 3 ELSE IF x(2) \in DOMAIN Punct THEN 2
              ELSE IF x(1) \in DOMAIN Punct THEN 1 ELSE 0
  IN IF n = 0 THEN <<0, "TK_UNKNOWN">> ELSE <<n, Punct[x(n)]>>

(* <<length, kind>>                                                         *)
Munch(s, i) ==
  LET c == At(s, i) IN
  IF c \in Blank THEN <<Run(s, i, Blank) - i, "TK_WHITESPACE">>
  ELSE IF c = "\n" \/ Is(s, i, "\r\n") THEN <<Breaks(s, i) - i, "TK_LINE_BREAK">>
  ELSE IF c \in Digit THEN <<Number(s, i), "TK_NUMBER">>
  ELSE IF c = "&" /\ Escape(s, i) > 0 THEN <<Escape(s, i), "TK_HTML_ESCAPE_CHARACTER">>
  ELSE LET w == Word(s, i)
           p == Sign(s, i)
       IN IF w[1] > p[1] THEN w ELSE IF p[1] > 0 THEN p ELSE <<1, "TK_UNKNOWN">>
=============================================================================
