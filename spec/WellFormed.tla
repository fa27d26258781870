------------------------------ MODULE WellFormed ------------------------------
(* What the tree of a template that is accepted without an error must look  *)
(* like: every pair of delimiters, quotes, brackets and tags is complete,   *)
(* and every node has the parts its construct requires.                     *)
(* A tree is a sequence of nodes [k: kind, t: text, c: children] in         *)
(* preorder (children are positions in it); node 1 is the root.             *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

BOs == {"TK_CURLY_PERCENT", "TK_CURLY_PERCENT_MINUS", "TK_CURLY_PERCENT_TILDE"}
BCs == {"TK_PERCENT_CURLY", "TK_MINUS_PERCENT_CURLY", "TK_TILDE_PERCENT_CURLY"}
VOs == {"TK_OPEN_CURLY_CURLY", "TK_OPEN_CURLY_CURLY_MINUS", "TK_OPEN_CURLY_CURLY_TILDE"}
VCs == {"TK_CLOSE_CURLY_CURLY", "TK_MINUS_CLOSE_CURLY_CURLY", "TK_TILDE_CLOSE_CURLY_CURLY"}
COs == {"TK_OPEN_CURLY_HASHTAG", "TK_OPEN_CURLY_HASHTAG_MINUS", "TK_OPEN_CURLY_HASHTAG_TILDE"}
CCs == {"TK_HASHTAG_CLOSE_CURLY", "TK_MINUS_HASHTAG_CLOSE_CURLY", "TK_TILDE_HASHTAG_CLOSE_CURLY"}
HCO == {"TK_LESS_THAN_EXCLAMATION_MARK_MINUS_MINUS"}
HCC == {"TK_MINUS_MINUS_GREATER_THAN"}
Quotes == {"TK_SINGLE_QUOTES", "TK_DOUBLE_QUOTES"}
Ignored == {"TK_WHITESPACE", "TK_LINE_BREAK", "TK_UNKNOWN"}

(* keyword behind the opening delimiter                                     *)
TagWords ==
  [k \in {"TWIG_STARTING_BLOCK", "TWIG_ENDING_BLOCK", "TWIG_IF_BLOCK", "TWIG_ELSE_IF_BLOCK", "TWIG_ELSE_BLOCK", "TWIG_ENDIF_BLOCK", "TWIG_SET_BLOCK",
          "TWIG_ENDSET_BLOCK", "TWIG_FOR_BLOCK", "TWIG_FOR_ELSE_BLOCK", "TWIG_ENDFOR_BLOCK", "TWIG_EXTENDS", "TWIG_INCLUDE", "TWIG_USE", "TWIG_APPLY_STARTING_BLOCK",
          "TWIG_APPLY_ENDING_BLOCK", "TWIG_AUTOESCAPE_STARTING_BLOCK", "TWIG_AUTOESCAPE_ENDING_BLOCK", "TWIG_DEPRECATED", "TWIG_DO",
          "TWIG_EMBED_STARTING_BLOCK", "TWIG_EMBED_ENDING_BLOCK", "TWIG_FLUSH", "TWIG_FROM", "TWIG_IMPORT", "TWIG_SANDBOX_STARTING_BLOCK",
          "TWIG_SANDBOX_ENDING_BLOCK", "TWIG_VERBATIM_STARTING_BLOCK", "TWIG_VERBATIM_ENDING_BLOCK", "TWIG_MACRO_STARTING_BLOCK", "TWIG_MACRO_ENDING_BLOCK",
          "TWIG_WITH_STARTING_BLOCK", "TWIG_WITH_ENDING_BLOCK", "TWIG_CACHE_STARTING_BLOCK", "TWIG_CACHE_ENDING_BLOCK", "TWIG_PROPS",
          "TWIG_COMPONENT_STARTING_BLOCK", "TWIG_COMPONENT_ENDING_BLOCK", "TWIG_TRANS_STARTING_BLOCK", "TWIG_TRANS_ENDING_BLOCK",
          "SHOPWARE_TWIG_SW_EXTENDS", "SHOPWARE_TWIG_SW_INCLUDE", "SHOPWARE_SILENT_FEATURE_CALL_STARTING_BLOCK", "SHOPWARE_SILENT_FEATURE_CALL_ENDING_BLOCK",
          "SHOPWARE_RETURN", "SHOPWARE_ICON", "SHOPWARE_THUMBNAILS"} |->
   (CASE k = "TWIG_STARTING_BLOCK" -> {"TK_BLOCK"} [] k = "TWIG_ENDING_BLOCK" -> {"TK_ENDBLOCK"} [] k = "TWIG_IF_BLOCK" -> {"TK_IF"}
      [] k = "TWIG_ELSE_IF_BLOCK" -> {"TK_ELSE_IF"} [] k \in {"TWIG_ELSE_BLOCK", "TWIG_FOR_ELSE_BLOCK"} -> {"TK_ELSE"} [] k = "TWIG_ENDIF_BLOCK" -> {"TK_ENDIF"}
      [] k = "TWIG_SET_BLOCK" -> {"TK_SET"} [] k = "TWIG_ENDSET_BLOCK" -> {"TK_ENDSET"} [] k = "TWIG_FOR_BLOCK" -> {"TK_FOR"} [] k = "TWIG_ENDFOR_BLOCK" -> {"TK_ENDFOR"}
      [] k = "TWIG_EXTENDS" -> {"TK_EXTENDS"} [] k = "TWIG_INCLUDE" -> {"TK_INCLUDE"} [] k = "TWIG_USE" -> {"TK_USE", "TK_SW_USE"}
      [] k = "TWIG_APPLY_STARTING_BLOCK" -> {"TK_APPLY"} [] k = "TWIG_APPLY_ENDING_BLOCK" -> {"TK_ENDAPPLY"}
      [] k = "TWIG_AUTOESCAPE_STARTING_BLOCK" -> {"TK_AUTOESCAPE"} [] k = "TWIG_AUTOESCAPE_ENDING_BLOCK" -> {"TK_ENDAUTOESCAPE"}
      [] k = "TWIG_DEPRECATED" -> {"TK_DEPRECATED"} [] k = "TWIG_DO" -> {"TK_DO"}
      [] k = "TWIG_EMBED_STARTING_BLOCK" -> {"TK_EMBED", "TK_SW_EMBED"} [] k = "TWIG_EMBED_ENDING_BLOCK" -> {"TK_ENDEMBED", "TK_SW_END_EMBED"}
      [] k = "TWIG_FLUSH" -> {"TK_FLUSH"} [] k = "TWIG_FROM" -> {"TK_FROM", "TK_SW_FROM"} [] k = "TWIG_IMPORT" -> {"TK_IMPORT", "TK_SW_IMPORT"}
      [] k = "TWIG_SANDBOX_STARTING_BLOCK" -> {"TK_SANDBOX"} [] k = "TWIG_SANDBOX_ENDING_BLOCK" -> {"TK_ENDSANDBOX"}
      [] k = "TWIG_VERBATIM_STARTING_BLOCK" -> {"TK_VERBATIM"} [] k = "TWIG_VERBATIM_ENDING_BLOCK" -> {"TK_ENDVERBATIM"}
      [] k = "TWIG_MACRO_STARTING_BLOCK" -> {"TK_MACRO"} [] k = "TWIG_MACRO_ENDING_BLOCK" -> {"TK_ENDMACRO"}
      [] k = "TWIG_WITH_STARTING_BLOCK" -> {"TK_WITH"} [] k = "TWIG_WITH_ENDING_BLOCK" -> {"TK_ENDWITH"}
      [] k = "TWIG_CACHE_STARTING_BLOCK" -> {"TK_CACHE"} [] k = "TWIG_CACHE_ENDING_BLOCK" -> {"TK_ENDCACHE"} [] k = "TWIG_PROPS" -> {"TK_PROPS"}
      [] k = "TWIG_COMPONENT_STARTING_BLOCK" -> {"TK_COMPONENT"} [] k = "TWIG_COMPONENT_ENDING_BLOCK" -> {"TK_ENDCOMPONENT"}
      [] k = "TWIG_TRANS_STARTING_BLOCK" -> {"TK_TRANS"} [] k = "TWIG_TRANS_ENDING_BLOCK" -> {"TK_ENDTRANS"}
      [] k = "SHOPWARE_TWIG_SW_EXTENDS" -> {"TK_SW_EXTENDS"} [] k = "SHOPWARE_TWIG_SW_INCLUDE" -> {"TK_SW_INCLUDE"}
      [] k = "SHOPWARE_SILENT_FEATURE_CALL_STARTING_BLOCK" -> {"TK_SW_SILENT_FEATURE_CALL"}
      [] k = "SHOPWARE_SILENT_FEATURE_CALL_ENDING_BLOCK" -> {"TK_ENDSW_SILENT_FEATURE_CALL"} [] k = "SHOPWARE_RETURN" -> {"TK_RETURN"}
      [] k = "SHOPWARE_ICON" -> {"TK_SW_ICON"} [] k = "SHOPWARE_THUMBNAILS" -> {"TK_SW_THUMBNAILS"})]

(* constructs with a body between two tags                                  *)
Pairs == << <<"TWIG_FOR", "TWIG_FOR_BLOCK", "TWIG_ENDFOR_BLOCK">>, <<"TWIG_IF", "TWIG_IF_BLOCK", "TWIG_ENDIF_BLOCK">>,
  <<"TWIG_APPLY", "TWIG_APPLY_STARTING_BLOCK", "TWIG_APPLY_ENDING_BLOCK">>,
  <<"TWIG_AUTOESCAPE", "TWIG_AUTOESCAPE_STARTING_BLOCK", "TWIG_AUTOESCAPE_ENDING_BLOCK">>, <<"TWIG_EMBED", "TWIG_EMBED_STARTING_BLOCK", "TWIG_EMBED_ENDING_BLOCK">>,
  <<"TWIG_SANDBOX", "TWIG_SANDBOX_STARTING_BLOCK", "TWIG_SANDBOX_ENDING_BLOCK">>, <<"TWIG_VERBATIM", "TWIG_VERBATIM_STARTING_BLOCK", "TWIG_VERBATIM_ENDING_BLOCK">>,
  <<"TWIG_MACRO", "TWIG_MACRO_STARTING_BLOCK", "TWIG_MACRO_ENDING_BLOCK">>, <<"TWIG_WITH", "TWIG_WITH_STARTING_BLOCK", "TWIG_WITH_ENDING_BLOCK">>,
  <<"TWIG_CACHE", "TWIG_CACHE_STARTING_BLOCK", "TWIG_CACHE_ENDING_BLOCK">>, <<"TWIG_COMPONENT", "TWIG_COMPONENT_STARTING_BLOCK", "TWIG_COMPONENT_ENDING_BLOCK">>,
  <<"TWIG_TRANS", "TWIG_TRANS_STARTING_BLOCK", "TWIG_TRANS_ENDING_BLOCK">>,
  <<"SHOPWARE_SILENT_FEATURE_CALL", "SHOPWARE_SILENT_FEATURE_CALL_STARTING_BLOCK", "SHOPWARE_SILENT_FEATURE_CALL_ENDING_BLOCK">>,
  <<"TWIG_SET", "TWIG_SET_BLOCK", "TWIG_ENDSET_BLOCK">>, <<"TWIG_BLOCK", "TWIG_STARTING_BLOCK", "TWIG_ENDING_BLOCK">> >>

VoidTags == {"area", "base", "br", "col", "command", "embed", "hr", "img", "input", "keygen", "link", "meta", "param", "source", "track", "wbr"}

(* kinds in which no character may stand that means nothing                 *)
TwigKind(k) == /\ Len(k) > 9 /\ (SubSeq(k, 1, 5) = "TWIG_" \/ SubSeq(k, 1, 9) = "SHOPWARE_")
               /\ k \notin {"TWIG_COMMENT", "TWIG_LITERAL_STRING_INNER"}
IsToken(k) == Len(k) > 3 /\ SubSeq(k, 1, 3) = "TK_"

(* --- the parts of node n in tree T ---------------------------------------- *)
Kids(T, n) == SelectSeq(T[n].c, LAMBDA m : T[m].k \notin Ignored)
Kinds(T, ks) == [j \in 1..Len(ks) |-> T[ks[j]].k]
Count(s, S) == Cardinality({ j \in 1..Len(s) : s[j] \in S })
First(s) == IF s = <<>> THEN "" ELSE s[1]
Final(s) == IF s = <<>> THEN "" ELSE s[Len(s)]
Enclosed(s, a, b) == Len(s) >= 2 /\ First(s) \in a /\ Final(s) \in b
(* a a b a b ..: alternating sections of an if / for                        *)
RECURSIVE Sections(_, _, _)
Sections(s, k, heads) ==
  IF k > Len(s) THEN TRUE
  ELSE s[k] \in heads /\ k < Len(s) /\ s[k + 1] = "BODY" /\ Sections(s, k + 2, heads)

NameToken(T, n, j) == LET ks == Kids(T, n) IN IF j > Len(ks) THEN "" ELSE T[ks[j]].t

HtmlTag(T, n, LowerName(_)) ==
  LET ks == Kids(T, n)
      s  == Kinds(T, ks)
      start == Kids(T, ks[1])
      name  == NameToken(T, ks[1], 2)
      alone == T[start[Len(start)]].k = "TK_SLASH_GREATER_THAN" \/ LowerName(name) \in VoidTags
  IN /\ First(s) = "HTML_STARTING_TAG"
     /\ IF alone THEN Len(s) = 1
        ELSE s = <<"HTML_STARTING_TAG", "BODY", "HTML_ENDING_TAG">> /\ NameToken(T, ks[3], 2) = name

(* elements with a comma between any two of them; one may follow the last   *)
Listed(s, elements) ==
  \A j \in 1..Len(s) : IF j % 2 = 1 THEN s[j] \in elements ELSE s[j] = "TK_COMMA"
Inside(s) == SubSeq(s, 2, Len(s) - 1)
Binary == {"TK_OR", "TK_DOUBLE_PIPE", "TK_AND", "TK_DOUBLE_AMPERSAND", "TK_BINARY_OR", "TK_BINARY_XOR", "TK_BINARY_AND", "TK_DOUBLE_EQUAL",
  "TK_EXCLAMATION_MARK_EQUALS", "TK_LESS_THAN_EQUAL_GREATER_THAN", "TK_LESS_THAN", "TK_GREATER_THAN", "TK_GREATER_THAN_EQUAL", "TK_LESS_THAN_EQUAL",
  "TK_IN", "TK_NOT_IN", "TK_MATCHES", "TK_STARTS_WITH", "TK_ENDS_WITH", "TK_TRIPLE_EQUAL", "TK_EXCLAMATION_MARK_DOUBLE_EQUALS", "TK_DOUBLE_DOT",
  "TK_PLUS", "TK_MINUS", "TK_TILDE", "TK_STAR", "TK_FORWARD_SLASH", "TK_DOUBLE_FORWARD_SLASH", "TK_PERCENT", "TK_IS", "TK_IS_NOT", "TK_DOUBLE_STAR",
  "TK_DOUBLE_QUESTION_MARK"}
Unary == {"TK_NOT", "TK_PLUS", "TK_MINUS", "TK_TRIPLE_DOT"}
ArgumentKinds == {"TWIG_EXPRESSION", "TWIG_NAMED_ARGUMENT", "TWIG_LITERAL_NAME"}

(* why node n is not well formed, "" if it is                               *)
Fault(T, n, LowerName(_)) ==
  LET k  == T[n].k
      ks == Kids(T, n)
      s  == Kinds(T, ks)
      pair == { p \in 1..Len(Pairs) : Pairs[p][1] = k }
      bad(ok, why) == IF ok THEN "" ELSE why
  IN
  IF k = "ERROR" THEN "an error region"
  ELSE IF TwigKind(k) /\ \E j \in 1..Len(T[n].c) : T[T[n].c[j]].k = "TK_UNKNOWN" THEN "an unknown character in a Twig element"
  ELSE IF k = "ROOT" THEN bad(\A j \in 1..Len(s) : ~IsToken(s[j]), "a token outside of every element")
  ELSE IF k \in DOMAIN TagWords THEN
    bad(Enclosed(s, BOs, BCs) /\ Len(s) >= 3 /\ s[2] \in TagWords[k] /\ Count(s, BOs \cup BCs) = 2, "an incomplete Twig tag")
  ELSE IF k = "TWIG_BLOCK" /\ Len(s) = 1 THEN
    bad(s[1] = "TWIG_STARTING_BLOCK" /\ Count(Kinds(T, Kids(T, ks[1])), {"TWIG_EXPRESSION"}) = 1, "a block without end")
  ELSE IF k = "TWIG_SET" /\ Len(s) = 1 THEN
    bad(LET a == { m \in 1..Len(Kids(T, ks[1])) : T[Kids(T, ks[1])[m]].k = "TWIG_ASSIGNMENT" } IN
        \E m \in a : Count(Kinds(T, Kids(T, Kids(T, ks[1])[m])), {"TK_EQUAL"}) = 1, "a set without end")
  ELSE IF pair # {} THEN
    LET p == Pairs[CHOOSE x \in pair : TRUE] IN
    IF First(s) # p[2] \/ Final(s) # p[3] \/ Len(s) < 3 THEN "a Twig element without its end tag"
    ELSE IF ~Sections(SubSeq(s, 2, Len(s) - 1), 2, {"TWIG_ELSE_IF_BLOCK", "TWIG_ELSE_BLOCK", "TWIG_FOR_ELSE_BLOCK"}) \/ s[2] # "BODY" THEN "a Twig element without its bodies"
    ELSE IF \E j \in 2..(Len(s) - 3) : s[j] \in {"TWIG_ELSE_BLOCK", "TWIG_FOR_ELSE_BLOCK"} THEN "a section behind else"
    ELSE IF Len(s) > 3 /\ k \notin {"TWIG_IF", "TWIG_FOR"} THEN "a Twig element with sections it cannot have"
    ELSE IF k \in {"TWIG_BLOCK", "TWIG_MACRO"} THEN
      LET e == Kids(T, ks[Len(ks)]) IN
      bad(Len(e) = 3 \/ (Len(e) = 4 /\ T[e[3]].t = NameToken(T, ks[1], 3)), "an end tag with another name")
    ELSE ""
  ELSE IF k = "TWIG_VAR" THEN bad(Len(s) = 3 /\ s[1] \in VOs /\ s[2] = "TWIG_EXPRESSION" /\ s[3] \in VCs, "an incomplete variable")
  ELSE IF k = "TWIG_COMMENT" THEN bad(Enclosed(s, COs, CCs), "an incomplete comment")
  ELSE IF k = "HTML_COMMENT" THEN bad(Enclosed(s, HCO, HCC), "an incomplete comment")
  ELSE IF k \in {"LUDTWIG_DIRECTIVE_IGNORE", "LUDTWIG_DIRECTIVE_FILE_IGNORE"} THEN
    bad((Enclosed(s, COs, CCs) \/ Enclosed(s, HCO, HCC)) /\ Len(s) = 4 /\ s[3] = "LUDTWIG_DIRECTIVE_RULE_LIST", "an incomplete directive")
  ELSE IF k = "HTML_TAG" THEN bad(HtmlTag(T, n, LowerName), "an element without its closing tag")
  ELSE IF k = "HTML_STARTING_TAG" THEN
    bad(Len(s) = 4 /\ s[1] = "TK_LESS_THAN" /\ s[2] \in {"TK_WORD", "TK_TWIG_COMPONENT_NAME"} /\ s[3] = "HTML_ATTRIBUTE_LIST"
        /\ s[4] \in {"TK_GREATER_THAN", "TK_SLASH_GREATER_THAN"}, "an incomplete start tag")
  ELSE IF k = "HTML_ENDING_TAG" THEN
    bad(Len(s) = 3 /\ s[1] = "TK_LESS_THAN_SLASH" /\ s[2] \in {"TK_WORD", "TK_TWIG_COMPONENT_NAME"} /\ s[3] = "TK_GREATER_THAN", "an incomplete closing tag")
  ELSE IF k = "HTML_DOCTYPE" THEN
    bad(s = <<"TK_LESS_THAN_EXCLAMATION_MARK", "TK_DOCTYPE", "TK_WORD", "TK_GREATER_THAN">>, "an incomplete doctype")
  ELSE IF k = "HTML_ATTRIBUTE" THEN
    bad(s \in {<<"TK_WORD">>, <<"TWIG_VAR">>, <<"TK_WORD", "TK_EQUAL", "HTML_STRING">>, <<"TWIG_VAR", "TK_EQUAL", "HTML_STRING">>}, "an incomplete attribute")
  ELSE IF k = "HTML_STRING" THEN
    bad(\/ s = <<"HTML_STRING_INNER">> /\ Len(Kids(T, ks[1])) = 1
        \/ Len(s) = 3 /\ s[1] \in Quotes /\ s[2] = "HTML_STRING_INNER" /\ s[3] = s[1], "an incomplete attribute value")
  ELSE IF k = "TWIG_LITERAL_STRING" THEN bad(Len(s) = 3 /\ s[1] \in Quotes /\ s[2] = "TWIG_LITERAL_STRING_INNER" /\ s[3] = s[1], "an incomplete string")
  ELSE IF k = "TWIG_LITERAL_STRING_INTERPOLATION" THEN
    bad(Len(s) = 4 /\ s[1] = "TK_HASHTAG" /\ s[2] = "TK_OPEN_CURLY" /\ s[3] = "TWIG_EXPRESSION" /\ s[4] = "TK_CLOSE_CURLY", "an incomplete interpolation")
  ELSE IF k = "TWIG_LITERAL_ARRAY" THEN bad(s = <<"TK_OPEN_SQUARE", "TWIG_LITERAL_ARRAY_INNER", "TK_CLOSE_SQUARE">>, "an incomplete array")
  ELSE IF k = "TWIG_LITERAL_HASH" THEN bad(s = <<"TK_OPEN_CURLY", "TWIG_LITERAL_HASH_ITEMS", "TK_CLOSE_CURLY">>, "an incomplete hash")
  ELSE IF k = "TWIG_LITERAL_HASH_PAIR" THEN
    bad(s \in {<<"TWIG_LITERAL_HASH_KEY">>, <<"TWIG_LITERAL_HASH_KEY", "TK_COLON", "TWIG_EXPRESSION">>,
               <<"TWIG_EXPRESSION">>, <<"TWIG_UNARY_EXPRESSION">>}, "an incomplete hash pair")
  ELSE IF k = "TWIG_LITERAL_HASH_KEY" /\ First(s) = "TK_OPEN_PARENTHESIS" THEN bad(Final(s) = "TK_CLOSE_PARENTHESIS", "an incomplete hash key")
  ELSE IF k = "TWIG_PARENTHESES_EXPRESSION" THEN
    bad(s = <<"TK_OPEN_PARENTHESIS", "TWIG_EXPRESSION", "TK_CLOSE_PARENTHESIS">>, "incomplete parentheses")
  ELSE IF k = "TWIG_BINARY_EXPRESSION" THEN bad(Len(s) = 3 /\ s[1] \in {"TWIG_EXPRESSION", "TWIG_BINARY_EXPRESSION"} /\ s[2] \in Binary /\ s[3] = "TWIG_EXPRESSION", "a binary operator without its operands")
  ELSE IF k = "TWIG_UNARY_EXPRESSION" THEN bad(Len(s) = 2 /\ s[1] \in Unary /\ s[2] = "TWIG_EXPRESSION", "a unary operator without its operand")
  ELSE IF k = "TWIG_LITERAL_ARRAY_INNER" THEN bad(Listed(s, {"TWIG_EXPRESSION"}), "an array without all elements or commas")
  ELSE IF k = "TWIG_LITERAL_HASH_ITEMS" THEN bad(Listed(s, {"TWIG_LITERAL_HASH_PAIR"}), "a hash without all pairs or commas")
  ELSE IF k = "TWIG_ARGUMENTS" THEN
    bad(IF First(s) = "TK_OPEN_PARENTHESIS" THEN Final(s) = "TK_CLOSE_PARENTHESIS" /\ Len(s) > 1 /\ Listed(Inside(s), ArgumentKinds) ELSE Len(s) = 1 /\ s[1] \in ArgumentKinds, "incomplete arguments")
  ELSE IF k = "TWIG_INDEX_LOOKUP" THEN
    bad(\/ Len(s) = 4 /\ s[1] = "TWIG_OPERAND" /\ s[2] = "TK_OPEN_SQUARE" /\ s[3] \in {"TWIG_INDEX", "TWIG_INDEX_RANGE"} /\ s[4] = "TK_CLOSE_SQUARE"
        \/ s = <<"TWIG_OPERAND", "TK_DOT", "TWIG_INDEX">>, "an incomplete index")
  ELSE IF k = "TWIG_ACCESSOR" THEN bad(s = <<"TWIG_OPERAND", "TK_DOT", "TWIG_OPERAND">>, "an incomplete accessor")
  ELSE IF k = "TWIG_FILTER" THEN bad(s = <<"TWIG_OPERAND", "TK_SINGLE_PIPE", "TWIG_OPERAND">>, "an incomplete filter")
  ELSE IF k = "TWIG_FUNCTION_CALL" THEN bad(s = <<"TWIG_OPERAND", "TWIG_ARGUMENTS">>, "an incomplete call")
  ELSE IF k = "TWIG_ARROW_FUNCTION" THEN bad(s = <<"TWIG_ARGUMENTS", "TK_EQUAL_GREATER_THAN", "TWIG_EXPRESSION">>, "an incomplete arrow function")
  ELSE IF k \in {"TWIG_CACHE_TTL", "TWIG_CACHE_TAGS"} THEN
    bad(Len(s) = 4 /\ s[2] = "TK_OPEN_PARENTHESIS" /\ s[3] = "TWIG_EXPRESSION" /\ s[4] = "TK_CLOSE_PARENTHESIS", "an incomplete cache argument")
  ELSE IF k = "TWIG_CONDITIONAL_EXPRESSION" THEN 
    bad(s \in {<<"TWIG_EXPRESSION", "TK_QUESTION_MARK">> \o r : r \in {<<"TWIG_EXPRESSION">>, <<"TK_COLON", "TWIG_EXPRESSION">>, <<"TWIG_EXPRESSION", "TK_COLON", "TWIG_EXPRESSION">>}}, "an incomplete conditional")
  ELSE IF k = "TWIG_ASSIGNMENT" THEN bad(First(s) = "TWIG_LITERAL_NAME" /\ (Final(s) \in {"TWIG_EXPRESSION", "TWIG_LITERAL_NAME"}), "an incomplete assignment")
  ELSE IF k = "TWIG_NAMED_ARGUMENT" THEN bad(Len(s) = 3 /\ s[2] \in {"TK_EQUAL", "TK_COLON"} /\ s[3] = "TWIG_EXPRESSION", "an incomplete named argument")
  ELSE IF k = "TWIG_OVERRIDE" THEN bad(s \in {<<"TWIG_LITERAL_NAME">>, <<"TWIG_LITERAL_NAME", "TK_AS", "TWIG_LITERAL_NAME">>}, "an incomplete alias")
  ELSE IF k = "TWIG_INCLUDE_WITH" THEN bad(s = <<"TK_WITH", "TWIG_EXPRESSION">>, "an incomplete with")
  ELSE ""
=============================================================================
