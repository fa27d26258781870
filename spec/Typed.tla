-------------------------------- MODULE Typed --------------------------------
(* What the typed tree (ludtwig_parser::syntax::typed) says about every     *)
(* node of a syntax tree: whoever works with the library reads a template   *)
(* through it.  A tree is a sequence of [k, p, s, t]: kind, number of the   *)
(* parent (0 at the root), where the text begins and the text itself ("" at *)
(* a node), in preorder.  A view is <<node, what, <<value, ..>>>>, where a  *)
(* value is the number of an element, a number or a text; <<>> is "none".   *)
EXTENDS Naturals, Sequences, FiniteSets, SequencesExt, TLC

TypeOf == {
  <<"TWIG_BLOCK", "TwigBlock">>,
  <<"TWIG_STARTING_BLOCK", "TwigStartingBlock">>,
  <<"TWIG_ENDING_BLOCK", "TwigEndingBlock">>,
  <<"HTML_TAG", "HtmlTag">>,
  <<"HTML_STARTING_TAG", "HtmlStartingTag">>,
  <<"HTML_ATTRIBUTE", "HtmlAttribute">>,
  <<"HTML_ENDING_TAG", "HtmlEndingTag">>,
  <<"TWIG_BINARY_EXPRESSION", "TwigBinaryExpression">>,
  <<"LUDTWIG_DIRECTIVE_RULE_LIST", "LudtwigDirectiveRuleList">>,
  <<"LUDTWIG_DIRECTIVE_FILE_IGNORE", "LudtwigDirectiveFileIgnore">>,
  <<"LUDTWIG_DIRECTIVE_IGNORE", "LudtwigDirectiveIgnore">>,
  <<"TWIG_LITERAL_STRING", "TwigLiteralString">>,
  <<"TWIG_LITERAL_STRING_INNER", "TwigLiteralStringInner">>,
  <<"HTML_STRING", "HtmlString">>,
  <<"TWIG_EXTENDS", "TwigExtends">>,
  <<"TWIG_VAR", "TwigVar">>,
  <<"TWIG_LITERAL_NAME", "TwigLiteralName">>,
  <<"BODY", "Body">>,
  <<"TWIG_EXPRESSION", "TwigExpression">>,
  <<"TWIG_UNARY_EXPRESSION", "TwigUnaryExpression">>,
  <<"TWIG_PARENTHESES_EXPRESSION", "TwigParenthesesExpression">>,
  <<"TWIG_CONDITIONAL_EXPRESSION", "TwigConditionalExpression">>,
  <<"TWIG_OPERAND", "TwigOperand">>,
  <<"TWIG_ACCESSOR", "TwigAccessor">>,
  <<"TWIG_FILTER", "TwigFilter">>,
  <<"TWIG_INDEX_LOOKUP", "TwigIndexLookup">>,
  <<"TWIG_INDEX", "TwigIndex">>,
  <<"TWIG_INDEX_RANGE", "TwigIndexRange">>,
  <<"TWIG_FUNCTION_CALL", "TwigFunctionCall">>,
  <<"TWIG_ARROW_FUNCTION", "TwigArrowFunction">>,
  <<"TWIG_ARGUMENTS", "TwigArguments">>,
  <<"TWIG_NAMED_ARGUMENT", "TwigNamedArgument">>,
  <<"TWIG_LITERAL_STRING_INTERPOLATION", "TwigLiteralStringInterpolation">>,
  <<"TWIG_LITERAL_NUMBER", "TwigLiteralNumber">>,
  <<"TWIG_LITERAL_ARRAY", "TwigLiteralArray">>,
  <<"TWIG_LITERAL_ARRAY_INNER", "TwigLiteralArrayInner">>,
  <<"TWIG_LITERAL_NULL", "TwigLiteralNull">>,
  <<"TWIG_LITERAL_BOOLEAN", "TwigLiteralBoolean">>,
  <<"TWIG_LITERAL_HASH", "TwigLiteralHash">>,
  <<"TWIG_LITERAL_HASH_ITEMS", "TwigLiteralHashItems">>,
  <<"TWIG_LITERAL_HASH_PAIR", "TwigLiteralHashPair">>,
  <<"TWIG_LITERAL_HASH_KEY", "TwigLiteralHashKey">>,
  <<"TWIG_LITERAL_HASH_VALUE", "TwigLiteralHashValue">>,
  <<"TWIG_COMMENT", "TwigComment">>,
  <<"TWIG_IF", "TwigIf">>,
  <<"TWIG_IF_BLOCK", "TwigIfBlock">>,
  <<"TWIG_ELSE_IF_BLOCK", "TwigElseIfBlock">>,
  <<"TWIG_ELSE_BLOCK", "TwigElseBlock">>,
  <<"TWIG_ENDIF_BLOCK", "TwigEndIfBlock">>,
  <<"TWIG_SET", "TwigSet">>,
  <<"TWIG_SET_BLOCK", "TwigSetBlock">>,
  <<"TWIG_ENDSET_BLOCK", "TwigEndSetBlock">>,
  <<"TWIG_ASSIGNMENT", "TwigAssignment">>,
  <<"TWIG_FOR", "TwigFor">>,
  <<"TWIG_FOR_BLOCK", "TwigForBlock">>,
  <<"TWIG_FOR_ELSE_BLOCK", "TwigForElseBlock">>,
  <<"TWIG_ENDFOR_BLOCK", "TwigEndForBlock">>,
  <<"TWIG_INCLUDE", "TwigInclude">>,
  <<"TWIG_INCLUDE_WITH", "TwigIncludeWith">>,
  <<"TWIG_USE", "TwigUse">>,
  <<"TWIG_OVERRIDE", "TwigOverride">>,
  <<"TWIG_APPLY", "TwigApply">>,
  <<"TWIG_APPLY_STARTING_BLOCK", "TwigApplyStartingBlock">>,
  <<"TWIG_APPLY_ENDING_BLOCK", "TwigApplyEndingBlock">>,
  <<"TWIG_AUTOESCAPE", "TwigAutoescape">>,
  <<"TWIG_AUTOESCAPE_STARTING_BLOCK", "TwigAutoescapeStartingBlock">>,
  <<"TWIG_AUTOESCAPE_ENDING_BLOCK", "TwigAutoescapeEndingBlock">>,
  <<"TWIG_DEPRECATED", "TwigDeprecated">>,
  <<"TWIG_DO", "TwigDo">>,
  <<"TWIG_EMBED", "TwigEmbed">>,
  <<"TWIG_EMBED_STARTING_BLOCK", "TwigEmbedStartingBlock">>,
  <<"TWIG_EMBED_ENDING_BLOCK", "TwigEmbedEndingBlock">>,
  <<"TWIG_FLUSH", "TwigFlush">>,
  <<"TWIG_FROM", "TwigFrom">>,
  <<"TWIG_IMPORT", "TwigImport">>,
  <<"TWIG_SANDBOX", "TwigSandbox">>,
  <<"TWIG_SANDBOX_STARTING_BLOCK", "TwigSandboxStartingBlock">>,
  <<"TWIG_SANDBOX_ENDING_BLOCK", "TwigSandboxEndingBlock">>,
  <<"TWIG_VERBATIM", "TwigVerbatim">>,
  <<"TWIG_VERBATIM_STARTING_BLOCK", "TwigVerbatimStartingBlock">>,
  <<"TWIG_VERBATIM_ENDING_BLOCK", "TwigVerbatimEndingBlock">>,
  <<"TWIG_MACRO", "TwigMacro">>,
  <<"TWIG_MACRO_STARTING_BLOCK", "TwigMacroStartingBlock">>,
  <<"TWIG_MACRO_ENDING_BLOCK", "TwigMacroEndingBlock">>,
  <<"TWIG_WITH", "TwigWith">>,
  <<"TWIG_WITH_STARTING_BLOCK", "TwigWithStartingBlock">>,
  <<"TWIG_WITH_ENDING_BLOCK", "TwigWithEndingBlock">>,
  <<"TWIG_CACHE", "TwigCache">>,
  <<"TWIG_CACHE_TTL", "TwigCacheTTL">>,
  <<"TWIG_CACHE_TAGS", "TwigCacheTags">>,
  <<"TWIG_CACHE_STARTING_BLOCK", "TwigCacheStartingBlock">>,
  <<"TWIG_CACHE_ENDING_BLOCK", "TwigCacheEndingBlock">>,
  <<"TWIG_PROPS", "TwigProps">>,
  <<"TWIG_PROP_DECLARATION", "TwigPropDeclaration">>,
  <<"TWIG_COMPONENT", "TwigComponent">>,
  <<"TWIG_COMPONENT_STARTING_BLOCK", "TwigComponentStartingBlock">>,
  <<"TWIG_COMPONENT_ENDING_BLOCK", "TwigComponentEndingBlock">>,
  <<"SHOPWARE_TWIG_SW_EXTENDS", "ShopwareTwigExtends">>,
  <<"SHOPWARE_TWIG_SW_INCLUDE", "ShopwareTwigInclude">>,
  <<"SHOPWARE_SILENT_FEATURE_CALL", "ShopwareSilentFeatureCall">>,
  <<"SHOPWARE_SILENT_FEATURE_CALL_STARTING_BLOCK", "ShopwareSilentFeatureCallStartingBlock">>,
  <<"SHOPWARE_SILENT_FEATURE_CALL_ENDING_BLOCK", "ShopwareSilentFeatureCallEndingBlock">>,
  <<"SHOPWARE_RETURN", "ShopwareReturn">>,
  <<"SHOPWARE_ICON", "ShopwareIcon">>,
  <<"SHOPWARE_ICON_STYLE", "ShopwareIconStyle">>,
  <<"SHOPWARE_THUMBNAILS", "ShopwareThumbnails">>,
  <<"SHOPWARE_THUMBNAILS_WITH", "ShopwareThumbnailsWith">>,
  <<"HTML_DOCTYPE", "HtmlDoctype">>,
  <<"HTML_ATTRIBUTE_LIST", "HtmlAttributeList">>,
  <<"HTML_STRING_INNER", "HtmlStringInner">>,
  <<"HTML_TEXT", "HtmlText">>,
  <<"HTML_RAW_TEXT", "HtmlRawText">>,
  <<"HTML_COMMENT", "HtmlComment">>,
  <<"ERROR", "Error">>,
  <<"ROOT", "Root">>,
  <<"TWIG_TRANS", "TwigTrans">>,
  <<"TWIG_TRANS_STARTING_BLOCK", "TwigTransStartingBlock">>,
  <<"TWIG_TRANS_ENDING_BLOCK", "TwigTransEndingBlock">>
}

(* The constructs whose delimiters can trim the space around them.          *)
Trimming == {
  "TWIG_STARTING_BLOCK", "TWIG_ENDING_BLOCK", "TWIG_IF_BLOCK", "TWIG_ELSE_IF_BLOCK",
  "TWIG_ELSE_BLOCK", "TWIG_ENDIF_BLOCK", "TWIG_SET_BLOCK", "TWIG_ENDSET_BLOCK", "TWIG_FOR_BLOCK",
  "TWIG_FOR_ELSE_BLOCK", "TWIG_ENDFOR_BLOCK", "TWIG_INCLUDE", "TWIG_USE", "TWIG_OVERRIDE",
  "TWIG_APPLY_STARTING_BLOCK", "TWIG_APPLY_ENDING_BLOCK", "TWIG_AUTOESCAPE_STARTING_BLOCK",
  "TWIG_AUTOESCAPE_ENDING_BLOCK", "TWIG_DEPRECATED", "TWIG_DO", "TWIG_EMBED_STARTING_BLOCK",
  "TWIG_EMBED_ENDING_BLOCK", "TWIG_FLUSH", "TWIG_FROM", "TWIG_IMPORT", "TWIG_EXTENDS",
  "TWIG_SANDBOX_STARTING_BLOCK", "TWIG_SANDBOX_ENDING_BLOCK", "TWIG_VERBATIM_STARTING_BLOCK",
  "TWIG_VERBATIM_ENDING_BLOCK", "TWIG_MACRO_STARTING_BLOCK", "TWIG_MACRO_ENDING_BLOCK",
  "TWIG_WITH_STARTING_BLOCK", "TWIG_WITH_ENDING_BLOCK", "TWIG_CACHE_STARTING_BLOCK",
  "TWIG_CACHE_ENDING_BLOCK", "TWIG_PROPS", "TWIG_COMPONENT_STARTING_BLOCK",
  "TWIG_COMPONENT_ENDING_BLOCK", "TWIG_TRANS_STARTING_BLOCK", "TWIG_TRANS_ENDING_BLOCK",
  "TWIG_ASSIGNMENT", "SHOPWARE_TWIG_SW_EXTENDS", "SHOPWARE_TWIG_SW_INCLUDE",
  "SHOPWARE_SILENT_FEATURE_CALL_STARTING_BLOCK", "SHOPWARE_SILENT_FEATURE_CALL_ENDING_BLOCK",
  "SHOPWARE_RETURN", "SHOPWARE_ICON", "TWIG_VAR", "TWIG_COMMENT"
}

Trivia == {"TK_WHITESPACE", "TK_LINE_BREAK"}
Opens(form) ==
  IF form \in {"{%-", "{{-", "{#-"} THEN <<1>> ELSE IF form \in {"{%~", "{{~", "{#~"} THEN <<2>> ELSE <<>>
Closes(form) ==
  IF form \in {"-%}", "-}}", "-#}"} THEN <<1>> ELSE IF form \in {"~%}", "~}}", "~#}"} THEN <<2>> ELSE <<>>

(* ---- the parts of a node ---- *)
IsToken(tree, i) == tree[i].tok
Nodes(tree, n, kind) == SelectSeq(tree[n].c, LAMBDA i : ~ IsToken(tree, i) /\ tree[i].k = kind)
Tokens(tree, n, kinds) == SelectSeq(tree[n].c, LAMBDA i : IsToken(tree, i) /\ tree[i].k \in kinds)
Solid(tree, n) == SelectSeq(tree[n].c, LAMBDA i : IsToken(tree, i) /\ tree[i].k \notin Trivia)
First(s) == IF s = <<>> THEN <<>> ELSE <<s[1]>>
Second(s) == IF Len(s) < 2 THEN <<>> ELSE <<s[2]>>
LastOf(s) == IF s = <<>> THEN <<>> ELSE <<s[Len(s)]>>
Flag(b) == <<IF b THEN 1 ELSE 0>>
Parent(tree, n, kind) == IF tree[n].p # 0 /\ tree[tree[n].p].k = kind THEN <<tree[n].p>> ELSE <<>>
RECURSIVE Around(_, _, _)
Around(tree, n, kind) ==
  IF n = 0 THEN <<>> ELSE IF tree[n].k = kind THEN <<n>> ELSE Around(tree, tree[n].p, kind)
Texts(tree, ids) == [i \in 1..Len(ids) |-> tree[ids[i]].t]
Of(s, f(_)) == IF s = <<>> THEN <<>> ELSE f(s[1])

Word == {"TK_WORD"}
TagName == {"TK_WORD", "TK_TWIG_COMPONENT_NAME"}
Component == {"TK_TWIG_COMPONENT_NAME"}

(* the leaf tokens below a node, as numbers: everything behind it in        *)
(* preorder that still belongs to it                                        *)
RECURSIVE Leaf(_, _, _)
Leaf(tree, i, last) == IF i > last THEN 0 ELSE IF IsToken(tree, i) /\ tree[i].k \notin Trivia THEN i ELSE Leaf(tree, i + 1, last)
FirstLeaf(tree, n) == Leaf(tree, n, tree[n].last)
RECURSIVE LeafBack(_, _, _)
LeafBack(tree, i, first) == IF i < first THEN 0 ELSE IF IsToken(tree, i) /\ tree[i].k \notin Trivia THEN i ELSE LeafBack(tree, i - 1, first)
LastLeaf(tree, n) == LeafBack(tree, tree[n].last, n)

Rules(tree, list) == Texts(tree, Tokens(tree, list, Word))
TagAttributes(tree, start) ==
  LET list == Nodes(tree, start, "HTML_ATTRIBUTE_LIST") IN
  Of(list, LAMBDA l : Nodes(tree, l, "HTML_ATTRIBUTE"))

(* An operator stands between its operands.                                 *)
Operator(tree, n) == First(Solid(tree, n))
Before(tree, n, ids) == LET o == Operator(tree, n) IN IF o = <<>> THEN ids ELSE SelectSeq(ids, LAMBDA i : i < o[1])
Behind(tree, n, ids) == LET o == Operator(tree, n) IN IF o = <<>> THEN <<>> ELSE SelectSeq(ids, LAMBDA i : i > o[1])

(* A quote stands before or behind what is quoted.                          *)
Inner(tree, n) == SelectSeq(tree[n].c, LAMBDA i : ~ IsToken(tree, i))
OpeningQuote(tree, n) ==
  LET i == Inner(tree, n) IN First(SelectSeq(Solid(tree, n), LAMBDA q : IF i = <<>> THEN TRUE ELSE q < i[1]))
ClosingQuote(tree, n) ==
  LET i == Inner(tree, n) IN First(SelectSeq(Solid(tree, n), LAMBDA q : IF i = <<>> THEN FALSE ELSE q > i[1]))

(* ---- what is said about node n, apart from its type ---- *)
Parts(tree, n) ==
  LET k == tree[n].k IN
  CASE k = "TWIG_BLOCK" ->
         LET s == Nodes(tree, n, "TWIG_STARTING_BLOCK") IN
         {<<"name", Of(s, LAMBDA b : First(Tokens(tree, b, Word)))>>, <<"start", First(s)>>,
          <<"body", First(Nodes(tree, n, "BODY"))>>, <<"end", First(Nodes(tree, n, "TWIG_ENDING_BLOCK"))>>}
    [] k \in {"TWIG_STARTING_BLOCK", "TWIG_ENDING_BLOCK"} ->
         {<<"name", First(Tokens(tree, n, Word))>>, <<"of", Parent(tree, n, "TWIG_BLOCK")>>}
    [] k = "HTML_TAG" ->
         LET s == Nodes(tree, n, "HTML_STARTING_TAG")
             e == Nodes(tree, n, "HTML_ENDING_TAG") IN
         {<<"name", Of(s, LAMBDA b : First(Tokens(tree, b, TagName)))>>, <<"start", First(s)>>,
          <<"body", First(Nodes(tree, n, "BODY"))>>, <<"end", First(e)>>, <<"selfclosing", Flag(e = <<>>)>>,
          <<"component", Flag(IF s = <<>> THEN FALSE ELSE Tokens(tree, s[1], Component) # <<>>)>>,
          <<"attributes", Of(s, LAMBDA b : TagAttributes(tree, b))>>}
    [] k = "HTML_STARTING_TAG" ->
         {<<"name", First(Tokens(tree, n, TagName))>>, <<"attributes", TagAttributes(tree, n)>>,
          <<"component", Flag(Tokens(tree, n, Component) # <<>>)>>, <<"of", Parent(tree, n, "HTML_TAG")>>}
    [] k = "HTML_ENDING_TAG" ->
         {<<"name", First(Tokens(tree, n, TagName))>>,
          <<"component", Flag(Tokens(tree, n, Component) # <<>>)>>, <<"of", Parent(tree, n, "HTML_TAG")>>}
    [] k = "HTML_ATTRIBUTE" ->
         {<<"name", First(Tokens(tree, n, Word))>>, <<"value", First(Nodes(tree, n, "HTML_STRING"))>>,
          <<"of", Around(tree, n, "HTML_STARTING_TAG")>>}
    [] k = "TWIG_BINARY_EXPRESSION" ->
         LET e == Nodes(tree, n, "TWIG_EXPRESSION") IN
         {<<"operator", Operator(tree, n)>>, <<"left", First(Before(tree, n, e))>>, <<"right", First(Behind(tree, n, e))>>}
    [] k = "LUDTWIG_DIRECTIVE_RULE_LIST" -> {<<"rules", Rules(tree, n)>>}
    [] k \in {"LUDTWIG_DIRECTIVE_FILE_IGNORE", "LUDTWIG_DIRECTIVE_IGNORE"} ->
         {<<"rules", Of(Nodes(tree, n, "LUDTWIG_DIRECTIVE_RULE_LIST"), LAMBDA l : Rules(tree, l))>>}
    [] k \in {"TWIG_LITERAL_STRING", "HTML_STRING"} ->
         {<<"inner", First(Nodes(tree, n, k \o "_INNER"))>>, <<"open", OpeningQuote(tree, n)>>, <<"close", ClosingQuote(tree, n)>>}
    [] k = "TWIG_LITERAL_STRING_INNER" -> {<<"interpolations", Nodes(tree, n, "TWIG_LITERAL_STRING_INTERPOLATION")>>}
    [] k = "TWIG_EXTENDS" -> {<<"keyword", First(Tokens(tree, n, {"TK_EXTENDS"}))>>}
    [] k = "TWIG_VAR" -> {<<"expression", First(Nodes(tree, n, "TWIG_EXPRESSION"))>>}
    [] k = "TWIG_LITERAL_NAME" -> {<<"name", First(Tokens(tree, n, Word))>>}
    [] k = "TWIG_FILTER" ->
         LET o == Nodes(tree, n, "TWIG_OPERAND") IN {<<"left", First(o)>>, <<"right", Second(o)>>}
    [] k = "TWIG_FUNCTION_CALL" ->
         {<<"name", First(Nodes(tree, n, "TWIG_OPERAND"))>>, <<"arguments", First(Nodes(tree, n, "TWIG_ARGUMENTS"))>>}
    [] OTHER -> {}

Control(tree, n) ==
  IF tree[n].k \notin Trimming THEN {}
  ELSE {<<"leading", Of(First(Solid(tree, n)), LAMBDA i : Opens(tree[i].t))>>,
        <<"trailing", Of(LastOf(Solid(tree, n)), LAMBDA i : Closes(tree[i].t))>>}

Type(tree, n) == LET t == { x \in TypeOf : x[1] = tree[n].k } IN
  {<<"type", IF t = {} THEN <<>> ELSE <<(CHOOSE x \in t : TRUE)[2]>>>>}

(* Where a node begins and ends without the space before it; nothing is     *)
(* said about a node that is nothing but space.                             *)
Extent(tree, n) == LET i == FirstLeaf(tree, n) IN IF i = 0 THEN {} ELSE {<<"trimmed", <<tree[i].s, tree[n].e>>>>}

Said(tree, n) == Parts(tree, n) \cup Control(tree, n) \cup Type(tree, n) \cup Extent(tree, n)

(* In a template without an error the views speak about the text itself:    *)
(* what is said about trimming is said by the first and the last characters *)
(* of the construct; a name, a quote, an operator stand in the text of the  *)
(* node; a construct with a start has its name.                             *)
TextFault(tree, n) ==
  LET k == tree[n].k
      is == Parts(tree, n)
      V(w) == (CHOOSE x \in is : x[1] = w)[2]
      f == FirstLeaf(tree, n)
      l == LastLeaf(tree, n)
  IN IF k \in Trimming /\ (f = 0 \/ l = 0) THEN "an empty construct"
     ELSE IF k \in Trimming /\ Control(tree, n) # {<<"leading", Opens(tree[f].t)>>, <<"trailing", Closes(tree[l].t)>>} THEN "trimming is not that of the outermost characters"
     ELSE IF k \in {"TWIG_BLOCK", "TWIG_STARTING_BLOCK", "HTML_TAG", "HTML_STARTING_TAG", "HTML_ENDING_TAG"} /\ V("name") = <<>> THEN "no name"
     ELSE IF k = "HTML_ATTRIBUTE" /\ (V("name") = <<>>) # (tree[FirstLeaf(tree, n)].p # n) THEN "no name"
     ELSE IF k \in {"TWIG_BLOCK", "HTML_TAG"} /\ V("start") = <<>> THEN "no start"
     ELSE IF k \in {"TWIG_STARTING_BLOCK", "TWIG_ENDING_BLOCK", "HTML_STARTING_TAG", "HTML_ENDING_TAG", "HTML_ATTRIBUTE"} /\ V("of") = <<>> THEN "belongs to nothing"
     ELSE IF k = "TWIG_BINARY_EXPRESSION" /\ (V("operator") = <<>> \/ V("right") = <<>> \/ Before(tree, n, Inner(tree, n)) = <<>>) THEN "an operator without operands"
     ELSE IF k = "TWIG_LITERAL_STRING" /\ (V("open") = <<>> \/ V("close") = <<>> \/ V("inner") = <<>>) THEN "a string without quotes"
     ELSE IF k = "HTML_STRING" /\ (V("open") = <<>>) # (V("close") = <<>>) THEN "half a pair of quotes"
     ELSE IF k \in {"TWIG_LITERAL_STRING", "HTML_STRING"} /\ V("open") # <<>> /\ V("close") # <<>> /\ tree[V("open")[1]].t # tree[V("close")[1]].t THEN "different quotes"
     ELSE IF k = "TWIG_FILTER" /\ (V("left") = <<>> \/ V("right") = <<>>) THEN "a filter without operands"
     ELSE IF k = "TWIG_FUNCTION_CALL" /\ (V("name") = <<>> \/ V("arguments") = <<>>) THEN "a call without its parts"
     ELSE IF k = "TWIG_EXTENDS" /\ V("keyword") = <<>> THEN "extends without its keyword"
     ELSE IF k = "TWIG_VAR" /\ V("expression") = <<>> THEN "prints nothing"
     ELSE IF k = "TWIG_LITERAL_NAME" /\ V("name") = <<>> THEN "a name without a name"
     ELSE ""
=============================================================================
