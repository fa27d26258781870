------------------------------- MODULE Grammar -------------------------------
(* The template language, as a derivation system that produces the text of  *)
(* a template together with the syntax tree this text spells out.           *)
(*                                                                          *)
(* Symbols of the derivation stack                                          *)
(*   <<"t", kind, text, glue, req>>  a token; glue: nothing may stand       *)
(*                                   between it and its predecessor; req: a *)
(*                                   delimiter or keyword whose removal     *)
(*                                   leaves a malformed template            *)
(*   <<"o", kind>>, <<"c">>          a node begins / ends                   *)
(*   <<"n", name, depth, ctx>>       still to be expanded; ctx says where   *)
(*                                   it stands: "el" among elements, "at"   *)
(*                                   in a start tag, "sq"/"dq" in a quoted  *)
(*                                   attribute value, "raw" in raw text     *)
(* Prod(n, i, d, c) is the i-th production of nonterminal n.  Production 1  *)
(* is always the smallest one, so every derivation can be finished.         *)
EXTENDS Expr, TLC

T(k, x) == <<"t", k, x, FALSE, FALSE>>
R(k, x) == <<"t", k, x, FALSE, TRUE>>     \* required
G(k, x) == <<"t", k, x, TRUE, FALSE>>     \* glued to its predecessor
GR(k, x) == <<"t", k, x, TRUE, TRUE>>     \* glued and required
W(x) == T("TK_WORD", x)
RW(x) == R("TK_WORD", x)
Nd(k, s) == << <<"o", k>> >> \o s \o << <<"c">> >>

------------------------------------------------------------------------------
(* Vocabulary                                                               *)
VarNames == << "product", "page", "item", "fooBar", "foo_bar", "Price", "a", "b", "x1",
               "date", "source", "max", "style", "loop", "context", "even", "cycle", "_self", "FOO_BAR" >>
FilterNames == << "trans", "raw", "json_encode", "length", "upper", "default", "date", "sw_sanitize",
                  "merge", "foo_filter", "fooFilter", "e", "escape", "format" >>
ArgNames == << "key", "date", "with_context", "max", "style", "only" >>
FuncNames == << "path", "include", "source", "max", "min", "range", "cycle", "random", "date", "block",
                "constant", "asset", "foo_func", "fooFunc", "parent", "attribute" >>
TestNames == << <<"TK_WORD", "defined">>, <<"TK_WORD", "empty">>, <<"TK_WORD", "even">>, <<"TK_WORD", "odd">>,
                <<"TK_WORD", "iterable">>, <<"TK_WORD", "none">>, <<"TK_WORD", "null">>, <<"TK_WORD", "foo_test">>,
                <<"TK_WORD", "same as">>, <<"TK_WORD", "constant">> >>
BlockNames == << "page_content", "base_body", "foo", "foo", "FooBar", "fooBar", "my-block", "a_1", "base_main_inner",
                 "Foo_bar", "_", "x", "page_content", "source", "if", "Style" >>
SetNames == << "fooBar", "foo_bar", "FOO", "foo", "Foo", "isActive", "_foo", "foo1", "fooBAR", "x" >>
TagNames == << "div", "span", "p", "ul", "li", "a", "my-element", "h1", "template", "pre", "table" >>
VoidNames == << "br", "hr", "img", "input", "link", "meta", "area", "base", "col", "command", "embed", "keygen",
                "param", "source", "track", "wbr", "BR", "Img" >>
RawNames == << "script", "style", "textarea", "title" >>
AttrNames == << "class", "id", "href", "data-foo", "disabled", "v-if", "@click", ":key", "#slot", "fooBar", "foo_bar",
                "Class", "data-fooBar", "style", "for", "title", "id", "aria-label", "id" >>
AttrWords == << "foo", "bar", "btn-primary", "col", "100", "main", "Foo", "is-active", "one", "12px" >>
RuleNames == << "twig-block-name-snake-case", "whitespace-between-line-breaks", "indentation", "html-string-quotation",
                "twig-string-quotation", "twig-block-duplicate", "twig-logic-or", "html-attribute-name-kebab-case",
                "twig-block-line-breaks", "line-ending", "twig-set-variable-name-camel-case", "ludtwig-ignore-file-not-on-top",
                "twig-logic-and", "twig-hash-key-no-quotes", "twig-prefer-shopware-extends", "twig-use-is-same-as",
                "twig-use-is-not-same-as", "twig-json-encode-escape-js", "html-duplicate-id", "twig-variable-definition-naming",
                "twig-valid-filter", "twig-valid-test", "twig-valid-function", "some-other-rule" >>
Numbers == << "0", "1", "42", "3.14", "10", "007", "1.5E+10", "2e-3" >>
TextWords == << "hello", "world", "foo", "Lorem", "ipsum", "it", "else", "block", "is", "only", "even", "date", "foo-bar", "foo_bar2" >>
StrWords == << "foo", "bar", "storefront", "Hello", "a", "in", "b-or" >>

(* kind of the token a word is written with                                 *)
KeywordKind(w) ==
  CASE w = "even" -> "TK_EVEN" [] w = "date" -> "TK_DATE" [] w = "source" -> "TK_SOURCE" [] w = "max" -> "TK_MAX"
    [] w = "style" -> "TK_STYLE" [] w = "cycle" -> "TK_CYCLE" [] w = "else" -> "TK_ELSE" [] w = "block" -> "TK_BLOCK"
    [] w = "is" -> "TK_IS" [] w = "only" -> "TK_ONLY" [] w = "in" -> "TK_IN" [] w = "b-or" -> "TK_BINARY_OR"
    [] w \in {"100", "12"} -> "TK_NUMBER"
    [] OTHER -> "TK_WORD"
Plain(w) == IF w = "12px" THEN <<T("TK_NUMBER", "12"), G("TK_WORD", "px")>> ELSE <<T(KeywordKind(w), w)>>
GlueFirst(s) == << [s[1] EXCEPT ![4] = TRUE] >> \o Tail(s)

------------------------------------------------------------------------------
(* Nonterminals that choose one token out of a list: index i.               *)
PoolOf(n) ==
  CASE n = "VarName" -> VarNames [] n = "FilterName" -> FilterNames [] n = "FuncName" -> FuncNames
    [] n = "SetName" -> SetNames [] n = "Num" -> Numbers [] n = "RuleName" -> RuleNames
    [] n = "AttrWord" -> AttrWords [] n = "TextWord" -> TextWords [] n = "StrWord" -> StrWords
PoolNames == {"VarName", "FilterName", "FuncName", "SetName", "Num", "RuleName", "AttrWord", "TextWord", "StrWord"}
PoolSyms(n, i) ==
  CASE n \in {"VarName", "FilterName", "FuncName", "SetName", "RuleName"} -> <<W(PoolOf(n)[i])>>
    [] n = "Num" -> <<T("TK_NUMBER", PoolOf(n)[i])>>
    [] OTHER -> Plain(PoolOf(n)[i])

(* twig delimiters in their whitespace control variants                     *)
DelimOf(n) ==
  CASE n = "BO" -> << <<"TK_CURLY_PERCENT", "{%">>, <<"TK_CURLY_PERCENT", "{%">>, <<"TK_CURLY_PERCENT", "{%">>, <<"TK_CURLY_PERCENT_MINUS", "{%-">>, <<"TK_CURLY_PERCENT_TILDE", "{%~">> >>
    [] n = "BC" -> << <<"TK_PERCENT_CURLY", "%}">>, <<"TK_PERCENT_CURLY", "%}">>, <<"TK_PERCENT_CURLY", "%}">>, <<"TK_MINUS_PERCENT_CURLY", "-%}">>, <<"TK_TILDE_PERCENT_CURLY", "~%}">> >>
    [] n = "VO" -> << <<"TK_OPEN_CURLY_CURLY", "{{">>, <<"TK_OPEN_CURLY_CURLY", "{{">>, <<"TK_OPEN_CURLY_CURLY_MINUS", "{{-">>, <<"TK_OPEN_CURLY_CURLY_TILDE", "{{~">> >>
    [] n = "VC" -> << <<"TK_CLOSE_CURLY_CURLY", "}}">>, <<"TK_CLOSE_CURLY_CURLY", "}}">>, <<"TK_MINUS_CLOSE_CURLY_CURLY", "-}}">>, <<"TK_TILDE_CLOSE_CURLY_CURLY", "~}}">> >>
    [] n = "CO" -> << <<"TK_OPEN_CURLY_HASHTAG", "{#">>, <<"TK_OPEN_CURLY_HASHTAG", "{#">>, <<"TK_OPEN_CURLY_HASHTAG_MINUS", "{#-">>, <<"TK_OPEN_CURLY_HASHTAG_TILDE", "{#~">> >>
    [] n = "CC" -> << <<"TK_HASHTAG_CLOSE_CURLY", "#}">>, <<"TK_HASHTAG_CLOSE_CURLY", "#}">>, <<"TK_MINUS_HASHTAG_CLOSE_CURLY", "-#}">>, <<"TK_TILDE_HASHTAG_CLOSE_CURLY", "~#}">> >>
DelimNames == {"BO", "BC", "VO", "VC", "CO", "CC"}

------------------------------------------------------------------------------
(* Number of productions                                                    *)
Count(n) ==
  CASE n \in PoolNames -> Len(PoolOf(n))
    [] n \in DelimNames -> Len(DelimOf(n))
    [] n = "Doc" -> 3
    [] n = "Items" -> 8
    [] n = "AfterText" -> 6
    [] n = "Elem" -> 50
    [] n = "Tag" -> 24
    [] n = "Text" -> 7
    [] n = "TextTail" -> 13
    [] n = "Html" -> 10
    [] n = "AttrList" -> 6
    [] n = "Attr" -> 12
    [] n = "AttrValue" -> 6
    [] n = "SqItem" -> 9 [] n = "DqItem" -> 9
    [] n = "StrItems" -> 5
    [] n = "RawItems" -> 6
    [] n = "RawItem" -> 9
    [] n = "Body" -> 1
    [] n = "Comment" -> 6
    [] n = "CommentWords" -> 6
    [] n = "RuleList" -> 5
    [] n = "RuleTail" -> 3
    [] n = "Var" -> 3
    [] n = "Stmt" -> 48
    [] n = "BlockName" -> 4 * Len(BlockNames)
    [] n = "ElseIfs" -> 4
    [] n = "With" -> 3
    [] n = "Only" -> 3
    [] n = "IgnoreMissing" -> 3
    [] n = "Overrides" -> 4
    [] n = "Args" -> 5
    [] n = "Arg" -> 6
    [] n = "Expr" -> 9
    [] n = "Chain" -> 6
    [] n = "Opd" -> 14
    [] n = "Prim" -> 11
    [] n = "Str" -> 11
    [] n = "StrParts" -> 4
    [] n = "StrPart" -> 26
    [] n = "PlainStr" -> 4
    [] n = "ArrItems" -> 4
    [] n = "HashItems" -> 4
    [] n = "HashPair" -> 8
    [] n = "HashKey" -> 6
    [] n = "TestOpd" -> Len(TestNames) + 3
    [] n = "FilterTail" -> 3
    [] n = "Props" -> 3
    [] n = "Bool" -> 4 [] n = "Doctype" -> 2 [] n = "ArgName" -> Len(ArgNames) [] n = "Range" -> 3
    [] n = "EscStrategy" -> 3 [] n = "Macro" -> 4 [] n = "WithVars" -> 2
    [] n = "CacheTtl" -> 2 [] n = "CacheTags" -> 2 [] n = "ComponentWith" -> 2
    [] n = "ReturnValue" -> 2 [] n = "IconStyle" -> 2 [] n = "ThumbnailsWith" -> 2
    [] n = "ShopwareName" -> 3 [] n = "Applied" -> 3

------------------------------------------------------------------------------
(* The productions                                                          *)
S(n, d, c) == << <<"n", n, d, c>> >>

Body(d, c) == Nd("BODY", S("Body", d, c))
EndTag(kind, kw, tk) == Nd(kind, S("BO", 0, "") \o <<R(tk, kw)>> \o S("BC", 0, ""))

(* one choice inside a pair of quotes                                       *)
QuotedWords(q, k, inner) == <<T(k, q)>> \o Nd("TWIG_LITERAL_STRING_INNER", inner) \o <<R(k, q)>>
StrNode(q, k, inner) == Nd("TWIG_LITERAL_STRING", QuotedWords(q, k, inner))
DQ == "TK_DOUBLE_QUOTES"
SQ == "TK_SINGLE_QUOTES"

Name(n) == Nd("TWIG_LITERAL_NAME", S(n, 0, ""))
NameOf(w) == Nd("TWIG_LITERAL_NAME", <<W(w)>>)
Ex(d) == S("Expr", d, "")
WithArgs(d) == Nd("TWIG_ARGUMENTS", <<T("TK_OPEN_PARENTHESIS", "(")>> \o S("Args", d, "") \o <<R("TK_CLOSE_PARENTHESIS", ")")>>)
Call(callee, d) == Nd("TWIG_FUNCTION_CALL", Nd("TWIG_OPERAND", callee) \o WithArgs(d))
Pipe(opd, name, args) == Nd("TWIG_FILTER", Nd("TWIG_OPERAND", opd) \o <<T("TK_SINGLE_PIPE", "|")>> \o Nd("TWIG_OPERAND", name \o args))
Access(opd, name) == Nd("TWIG_ACCESSOR", Nd("TWIG_OPERAND", opd) \o <<T("TK_DOT", ".")>> \o Nd("TWIG_OPERAND", name))
Lookup(opd, kind, idx) == Nd("TWIG_INDEX_LOOKUP", Nd("TWIG_OPERAND", opd) \o <<T("TK_OPEN_SQUARE", "[")>> \o Nd(kind, idx) \o <<R("TK_CLOSE_SQUARE", "]")>>)

(* a tag without body / with body                                           *)
Single(kind, kw, tk, rest) == Nd(kind, S("BO", 0, "") \o <<R(tk, kw)>> \o rest \o S("BC", 0, ""))
Paired(kind, start, end, kw, tk, rest, endkw, endtk, d, c) ==
  Nd(kind, Nd(start, S("BO", 0, "") \o <<R(tk, kw)>> \o rest \o S("BC", 0, ""))
           \o Body(d, c) \o EndTag(end, endkw, endtk))

Include(kind, kw, tk, d) ==
  Single(kind, kw, tk, Ex(d) \o S("IgnoreMissing", d, "") \o S("With", d, "") \o S("Only", d, ""))

Override == Nd("TWIG_OVERRIDE", Name("VarName"))
OverrideAs == Nd("TWIG_OVERRIDE", Name("VarName") \o <<R("TK_AS", "as")>> \o Name("SetName"))

(* the statements {% .. %}                                                  *)
BlockStmt(w, endname, d, c) ==
  Nd("TWIG_BLOCK",
     Nd("TWIG_STARTING_BLOCK", S("BO", 0, "") \o <<R("TK_BLOCK", "block"), RW(w)>> \o S("BC", 0, ""))
     \o Body(d, c)
     \o Nd("TWIG_ENDING_BLOCK", S("BO", 0, "") \o <<R("TK_ENDBLOCK", "endblock")>>
                                 \o (IF endname THEN <<W(w)>> ELSE <<>>) \o S("BC", 0, "")))
BlockShort(w, d) ==
  Nd("TWIG_BLOCK", Nd("TWIG_STARTING_BLOCK", S("BO", 0, "") \o <<R("TK_BLOCK", "block"), T("TK_WORD", w)>> \o Ex(d) \o S("BC", 0, "")))

Stmt(i, d, c) ==
  CASE i = 1 -> Single("TWIG_FLUSH", "flush", "TK_FLUSH", <<>>)
    [] i \in 2..6 -> S("BlockName", d, c)
    [] i \in 7..11 ->
         Nd("TWIG_IF", Nd("TWIG_IF_BLOCK", S("BO", 0, "") \o <<R("TK_IF", "if")>> \o Ex(d) \o S("BC", 0, ""))
                       \o Body(d, c) \o S("ElseIfs", d, c)
                       \o EndTag("TWIG_ENDIF_BLOCK", "endif", "TK_ENDIF"))
    [] i \in 12..13 ->
         Nd("TWIG_FOR", Nd("TWIG_FOR_BLOCK", S("BO", 0, "") \o <<R("TK_FOR", "for")>> \o Name("SetName")
                            \o <<R("TK_IN", "in")>> \o Ex(d) \o S("BC", 0, ""))
                        \o Body(d, c) \o EndTag("TWIG_ENDFOR_BLOCK", "endfor", "TK_ENDFOR"))
    [] i = 14 ->
         Nd("TWIG_FOR", Nd("TWIG_FOR_BLOCK", S("BO", 0, "") \o <<R("TK_FOR", "for")>> \o Name("SetName") \o <<R("TK_COMMA", ",")>> \o Name("SetName")
                            \o <<R("TK_IN", "in")>> \o Ex(d) \o S("BC", 0, ""))
                        \o Body(d, c)
                        \o Nd("TWIG_FOR_ELSE_BLOCK", S("BO", 0, "") \o <<R("TK_ELSE", "else")>> \o S("BC", 0, ""))
                        \o Body(d, c) \o EndTag("TWIG_ENDFOR_BLOCK", "endfor", "TK_ENDFOR"))
    [] i \in 15..17 ->
         Nd("TWIG_SET", Nd("TWIG_SET_BLOCK", S("BO", 0, "") \o <<R("TK_SET", "set")>>
               \o Nd("TWIG_ASSIGNMENT", Name("SetName") \o <<R("TK_EQUAL", "=")>> \o Ex(d)) \o S("BC", 0, "")))
    [] i = 18 ->
         Nd("TWIG_SET", Nd("TWIG_SET_BLOCK", S("BO", 0, "") \o <<R("TK_SET", "set")>>
               \o Nd("TWIG_ASSIGNMENT", Name("SetName") \o <<R("TK_COMMA", ",")>> \o Name("SetName") \o <<R("TK_EQUAL", "=")>>
                     \o Ex(d) \o <<R("TK_COMMA", ",")>> \o Ex(d)) \o S("BC", 0, "")))
    [] i = 19 ->
         Nd("TWIG_SET", Nd("TWIG_SET_BLOCK", S("BO", 0, "") \o <<R("TK_SET", "set")>> \o Nd("TWIG_ASSIGNMENT", Name("SetName")) \o S("BC", 0, ""))
                        \o Body(d, c) \o EndTag("TWIG_ENDSET_BLOCK", "endset", "TK_ENDSET"))
    [] i = 20 -> Single("TWIG_EXTENDS", "extends", "TK_EXTENDS", Ex(d))
    [] i = 21 -> Include("TWIG_INCLUDE", "include", "TK_INCLUDE", d)
    [] i = 22 -> Include("SHOPWARE_TWIG_SW_INCLUDE", "sw_include", "TK_SW_INCLUDE", d)
    [] i = 23 -> Single("TWIG_USE", "use", "TK_USE", S("PlainStr", d, ""))
    [] i = 24 -> Single("TWIG_USE", "sw_use", "TK_SW_USE", S("PlainStr", d, "") \o <<R("TK_WITH", "with")>> \o S("Overrides", d, ""))
    [] i = 25 -> Single("TWIG_FROM", "from", "TK_FROM", Ex(d) \o <<R("TK_IMPORT", "import")>> \o S("Overrides", d, ""))
    [] i = 26 -> Single("TWIG_IMPORT", "import", "TK_IMPORT", Ex(d) \o <<R("TK_AS", "as")>> \o Name("SetName"))
    [] i = 27 -> Paired("TWIG_EMBED", "TWIG_EMBED_STARTING_BLOCK", "TWIG_EMBED_ENDING_BLOCK", "embed", "TK_EMBED",
                        Ex(d) \o S("IgnoreMissing", d, "") \o S("With", d, "") \o S("Only", d, ""), "endembed", "TK_ENDEMBED", d, c)
    [] i = 28 -> Paired("TWIG_EMBED", "TWIG_EMBED_STARTING_BLOCK", "TWIG_EMBED_ENDING_BLOCK", "sw_embed", "TK_SW_EMBED",
                        Ex(d) \o S("With", d, ""), "sw_end_embed", "TK_SW_END_EMBED", d, c)
    [] i = 29 -> Paired("TWIG_APPLY", "TWIG_APPLY_STARTING_BLOCK", "TWIG_APPLY_ENDING_BLOCK", "apply", "TK_APPLY",
                        Name("FilterName"), "endapply", "TK_ENDAPPLY", d, c)
    [] i = 30 -> Paired("TWIG_AUTOESCAPE", "TWIG_AUTOESCAPE_STARTING_BLOCK", "TWIG_AUTOESCAPE_ENDING_BLOCK", "autoescape", "TK_AUTOESCAPE",
                        S("EscStrategy", d, ""),
                        "endautoescape", "TK_ENDAUTOESCAPE", d, c)
    [] i = 31 -> Single("TWIG_DEPRECATED", "deprecated", "TK_DEPRECATED", S("PlainStr", d, ""))
    [] i = 32 -> Single("TWIG_DO", "do", "TK_DO", Ex(d))
    [] i = 33 -> Paired("TWIG_SANDBOX", "TWIG_SANDBOX_STARTING_BLOCK", "TWIG_SANDBOX_ENDING_BLOCK", "sandbox", "TK_SANDBOX", <<>>, "endsandbox", "TK_ENDSANDBOX", d, c)
    [] i = 34 -> Paired("TWIG_VERBATIM", "TWIG_VERBATIM_STARTING_BLOCK", "TWIG_VERBATIM_ENDING_BLOCK", "verbatim", "TK_VERBATIM", <<>>, "endverbatim", "TK_ENDVERBATIM", d, c)
    [] i = 35 -> S("Macro", d, c)
    [] i = 36 -> Paired("TWIG_WITH", "TWIG_WITH_STARTING_BLOCK", "TWIG_WITH_ENDING_BLOCK", "with", "TK_WITH",
                        S("WithVars", d, ""), "endwith", "TK_ENDWITH", d, c)
    [] i = 37 -> Paired("TWIG_CACHE", "TWIG_CACHE_STARTING_BLOCK", "TWIG_CACHE_ENDING_BLOCK", "cache", "TK_CACHE",
                        Ex(d)
                        \o S("CacheTtl", d, "") \o S("CacheTags", d, ""),
                        "endcache", "TK_ENDCACHE", d, c)
    [] i = 38 -> Paired("TWIG_TRANS", "TWIG_TRANS_STARTING_BLOCK", "TWIG_TRANS_ENDING_BLOCK", "trans", "TK_TRANS", <<>>, "endtrans", "TK_ENDTRANS", d, c)
    [] i = 39 -> Paired("TWIG_COMPONENT", "TWIG_COMPONENT_STARTING_BLOCK", "TWIG_COMPONENT_ENDING_BLOCK", "component", "TK_COMPONENT",
                        NameOf("Alert") \o S("ComponentWith", d, ""),
                        "endcomponent", "TK_ENDCOMPONENT", d, c)
    [] i = 40 -> Single("TWIG_PROPS", "props", "TK_PROPS", S("Props", d, ""))
    [] i = 41 -> Single("SHOPWARE_TWIG_SW_EXTENDS", "sw_extends", "TK_SW_EXTENDS", S("PlainStr", d, ""))
    [] i = 42 -> Paired("SHOPWARE_SILENT_FEATURE_CALL", "SHOPWARE_SILENT_FEATURE_CALL_STARTING_BLOCK", "SHOPWARE_SILENT_FEATURE_CALL_ENDING_BLOCK",
                        "sw_silent_feature_call", "TK_SW_SILENT_FEATURE_CALL", S("PlainStr", d, ""), "endsw_silent_feature_call", "TK_ENDSW_SILENT_FEATURE_CALL", d, c)
    [] i = 43 -> Single("SHOPWARE_RETURN", "return", "TK_RETURN", S("ReturnValue", d, ""))
    [] i = 44 -> Single("SHOPWARE_ICON", "sw_icon", "TK_SW_ICON", S("ShopwareName", d, "") \o S("IconStyle", d, ""))
    [] i = 45 -> Single("TWIG_FROM", "sw_from", "TK_SW_FROM", Ex(d) \o <<R("TK_SW_IMPORT", "sw_import")>> \o S("Overrides", d, ""))
    [] i = 46 -> Single("TWIG_IMPORT", "sw_import", "TK_SW_IMPORT", Ex(d) \o <<R("TK_AS", "as")>> \o Name("SetName"))
    [] i = 47 -> Single("SHOPWARE_THUMBNAILS", "sw_thumbnails", "TK_SW_THUMBNAILS", S("ShopwareName", d, "") \o S("ThumbnailsWith", d, ""))
    [] i = 48 -> Paired("TWIG_APPLY", "TWIG_APPLY_STARTING_BLOCK", "TWIG_APPLY_ENDING_BLOCK", "apply", "TK_APPLY",
                        S("Applied", d, ""), "endapply", "TK_ENDAPPLY", d, c)

Attr(i, d) ==
  CASE i \in 1..2 -> Nd("HTML_ATTRIBUTE", S("AttrName", 0, ""))
    [] i \in 3..8 -> Nd("HTML_ATTRIBUTE", S("AttrName", 0, "") \o <<T("TK_EQUAL", "=")>> \o S("AttrValue", d, ""))
    [] i = 9 -> Nd("HTML_ATTRIBUTE", S("Var", d, "at"))
    [] i = 10 -> S("Comment", d, "at")
    [] i \in 11..12 -> S("Stmt", d, "at")

Prim(i, d) ==
  CASE i \in 1..3 -> Name("VarName")
    [] i = 4 -> Nd("TWIG_LITERAL_NUMBER", S("Num", 0, ""))
    [] i \in 5..6 -> S("Str", d, "")
    [] i = 7 -> Nd("TWIG_LITERAL_BOOLEAN", S("Bool", 0, ""))
    [] i = 8 -> Nd("TWIG_LITERAL_NULL", <<T("TK_NULL", "null")>>)
    [] i = 9 -> Nd("TWIG_LITERAL_ARRAY", <<T("TK_OPEN_SQUARE", "[")>> \o Nd("TWIG_LITERAL_ARRAY_INNER", S("ArrItems", d, "")) \o <<R("TK_CLOSE_SQUARE", "]")>>)
    [] i = 10 -> Nd("TWIG_LITERAL_HASH", <<T("TK_OPEN_CURLY", "{")>> \o Nd("TWIG_LITERAL_HASH_ITEMS", S("HashItems", d, "")) \o <<R("TK_CLOSE_CURLY", "}")>>)
    [] i = 11 -> Nd("TWIG_PARENTHESES_EXPRESSION", <<T("TK_OPEN_PARENTHESIS", "(")>> \o Ex(d) \o <<R("TK_CLOSE_PARENTHESIS", ")")>>)

Opd(i, d) ==
  CASE i \in 1..5 -> S("Prim", d, "")
    [] i = 6 -> Call(Name("FuncName"), d)
    [] i \in 7..8 -> Pipe(S("Opd", d, ""), Name("FilterName"), <<>>)
    [] i = 9 -> Pipe(S("Opd", d, ""), Name("FilterName"), WithArgs(d))
    [] i = 10 -> Access(S("Opd", d, ""), Name("VarName"))
    [] i = 11 -> Call(Access(S("Opd", d, ""), Name("VarName")), d)
    [] i = 12 -> Lookup(S("Opd", d, ""), "TWIG_INDEX", Ex(d))
    [] i = 13 -> Lookup(S("Opd", d, ""), "TWIG_INDEX_RANGE", S("Range", d, ""))
    [] i = 14 -> Nd("TWIG_INDEX_LOOKUP", Nd("TWIG_OPERAND", Name("VarName")) \o <<T("TK_DOT", ".")>>
                    \o Nd("TWIG_INDEX", Nd("TWIG_EXPRESSION", Nd("TWIG_LITERAL_NUMBER", <<T("TK_NUMBER", "0")>>))))

Expr(i, d) ==
  CASE i \in 1..6 -> S("Chain", d, "")
    [] i = 7 -> Wrap(Nd("TWIG_CONDITIONAL_EXPRESSION", S("Chain", d, "") \o <<T("TK_QUESTION_MARK", "?")>> \o Ex(d) \o <<T("TK_COLON", ":")>> \o Ex(d)))
    [] i = 8 -> Wrap(Nd("TWIG_CONDITIONAL_EXPRESSION", S("Chain", d, "") \o <<T("TK_QUESTION_MARK", "?"), T("TK_COLON", ":")>> \o Ex(d)))
    [] i = 9 -> S("Chain", d, "")

Interpolation(d) == Nd("TWIG_LITERAL_STRING_INTERPOLATION", <<T("TK_HASHTAG", "#"), G("TK_OPEN_CURLY", "{")>> \o Ex(d) \o <<R("TK_CLOSE_CURLY", "}")>>)

(* one element of a list of elements                                        *)
Elem(i, d, c) ==
  CASE i \in 1..6 -> S("Var", d, c)
    [] i \in 7..26 -> IF c = "el" THEN S("Html", d, c) ELSE S("Var", d, c)
    [] i \in 27..30 -> S("Comment", d, c)
    [] OTHER -> S("Stmt", d, c)

Html(i, d) ==
  LET tag(start, body, end) == Nd("HTML_TAG", Nd("HTML_STARTING_TAG", start) \o (IF end = <<>> THEN <<>> ELSE Nd("BODY", body) \o Nd("HTML_ENDING_TAG", end)))
      list == Nd("HTML_ATTRIBUTE_LIST", S("AttrList", d, "at"))
  IN CASE i \in 1..5 -> S("Tag", d, "el")
       [] i \in 6..7 -> S("VoidTag", d, "el")
       [] i = 8 -> S("RawTag", d, "el")
       [] i = 9 -> tag(<<T("TK_LESS_THAN", "<"), G("TK_TWIG_COMPONENT_NAME", "twig:Foo:bar")>> \o list \o <<R("TK_SLASH_GREATER_THAN", "/>")>>, <<>>, <<>>)
       [] i = 10 -> Nd("HTML_DOCTYPE", <<T("TK_LESS_THAN_EXCLAMATION_MARK", "<!"), <<"n", "Doctype", 0, "">>, RW("html"), R("TK_GREATER_THAN", ">")>>)

OpenTag(w) == <<T("TK_LESS_THAN", "<"), G("TK_WORD", w)>> \o Nd("HTML_ATTRIBUTE_LIST", <<>>)

Prod(n, i, d, c) ==
  CASE n \in PoolNames -> PoolSyms(n, i)
    [] n \in DelimNames -> <<IF n \in {"BC", "VC", "CC"} THEN R(DelimOf(n)[i][1], DelimOf(n)[i][2]) ELSE T(DelimOf(n)[i][1], DelimOf(n)[i][2])>>
    [] n = "Doc" -> S("Items", d, "el") \o (IF i = 1 THEN <<>> ELSE S("Elem", d, "el") \o S("Items", d, "el"))
    \* lists of elements; text never directly follows text
    [] n = "Items" ->
         (CASE i = 1 -> <<>>
           [] i = 2 -> S("Text", d, c)
           [] i \in 3..5 -> S("Elem", d, c) \o S("Items", d - 1, c)
           [] i = 6 -> S("Text", d, c) \o S("AfterText", d, c)
           [] OTHER -> S("Elem", d, c))
    [] n = "AfterText" -> S("Elem", d, c) \o (IF i = 1 THEN <<>> ELSE S("Items", d - 1, c))
    [] n = "Elem" -> Elem(i, d - 1, c)
    [] n = "Text" -> Nd("HTML_TEXT", S("TextWord", 0, "") \o (IF i = 1 THEN <<>> ELSE S("TextTail", d, "")))
    [] n = "TextTail" ->
         (CASE i = 1 -> <<>>
           [] i \in 2..4 -> S("TextWord", 0, "") \o S("TextTail", d - 1, "")
           [] i = 5 -> <<T("TK_COMMA", ",")>> \o S("TextTail", d - 1, "")
           [] i = 6 -> <<T("TK_HTML_ESCAPE_CHARACTER", "&nbsp;")>> \o S("TextTail", d - 1, "")
           [] i = 7 -> <<T("TK_NUMBER", "42"), T("TK_DOT", ".")>> \o S("TextTail", d - 1, "")
           [] i = 8 -> <<T("TK_LESS_THAN", "<"), <<"t", "TK_NUMBER", "3", TRUE, FALSE>> >> \o S("TextTail", d - 1, "")
           [] i = 9 -> <<T("TK_COLON", ":"), T("TK_SINGLE_QUOTES", "'")>> \o S("TextWord", 0, "")
           [] i = 10 -> <<T("TK_EXCLAMATION_MARK", "!"), T("TK_SEMICOLON", ";")>> \o S("TextTail", d - 1, "")
           [] i = 11 -> <<T("TK_AMPERSAND", "&")>> \o S("TextWord", 0, "") \o S("TextTail", d - 1, "")
           [] i = 12 -> <<T("TK_CLOSE_CURLY", "}"), T("TK_EQUAL", "="), T("TK_DOUBLE_QUOTES", "\"")>>
           [] i = 13 -> <<T("TK_HTML_ESCAPE_CHARACTER", "&#xA;"), T("TK_OPEN_PARENTHESIS", "("), T("TK_MINUS", "-")>> \o S("TextWord", 0, ""))
    [] n = "Html" -> Html(i, d)
    [] n = "Tag" ->
         LET k == IF i = 24 THEN "TK_TWIG_COMPONENT_NAME" ELSE "TK_WORD"
             w == IF i = 24 THEN "twig:Card" ELSE TagNames[((i - 1) % Len(TagNames)) + 1]
         IN Nd("HTML_TAG",
               Nd("HTML_STARTING_TAG", <<T("TK_LESS_THAN", "<"), G(k, w)>> \o Nd("HTML_ATTRIBUTE_LIST", S("AttrList", d, "at")) \o <<R("TK_GREATER_THAN", ">")>>)
               \o Nd("BODY", S("Items", d - 1, "el"))
               \o Nd("HTML_ENDING_TAG", <<R("TK_LESS_THAN_SLASH", "</"), GR(k, w), R("TK_GREATER_THAN", ">")>>))
    [] n = "VoidTag" ->
         Nd("HTML_TAG", Nd("HTML_STARTING_TAG", <<T("TK_LESS_THAN", "<"), G("TK_WORD", VoidNames[i])>> \o Nd("HTML_ATTRIBUTE_LIST", S("AttrList", d, "at"))
                           \o (IF i % 3 = 0 THEN <<R("TK_SLASH_GREATER_THAN", "/>")>> ELSE <<R("TK_GREATER_THAN", ">")>>)))
    [] n = "RawTag" ->
         Nd("HTML_TAG", Nd("HTML_STARTING_TAG", <<T("TK_LESS_THAN", "<"), G("TK_WORD", RawNames[i])>> \o Nd("HTML_ATTRIBUTE_LIST", S("AttrList", d, "at")) \o <<R("TK_GREATER_THAN", ">")>>)
                        \o Nd("BODY", Nd("HTML_RAW_TEXT", S("RawItems", d, "raw")))
                        \o Nd("HTML_ENDING_TAG", <<T("TK_LESS_THAN_SLASH", "</"), G("TK_WORD", RawNames[i]), R("TK_GREATER_THAN", ">")>>))
    [] n = "AttrList" -> IF i \in 1..3 THEN <<>> ELSE S("Attr", d - 1, "at") \o S("AttrList", d - 1, "at")
    [] n = "Attr" -> Attr(i, d)
    [] n = "AttrName" -> <<W(AttrNames[i])>>
    [] n = "AttrValue" ->
         (CASE i = 1 -> Nd("HTML_STRING", Nd("HTML_STRING_INNER", <<W("foo")>>))
           [] i \in 2..4 -> Nd("HTML_STRING", <<T(DQ, "\"")>> \o Nd("HTML_STRING_INNER", S("StrItems", d, "dq")) \o <<R(DQ, "\"")>>)
           [] i = 5 -> Nd("HTML_STRING", <<T(SQ, "'")>> \o Nd("HTML_STRING_INNER", S("StrItems", d, "sq")) \o <<R(SQ, "'")>>)
           [] i = 6 -> Nd("HTML_STRING", Nd("HTML_STRING_INNER", S("Var", d, "dq"))))
    [] n = "StrItems" ->
         (CASE i = 1 -> <<>>
           [] i = 2 -> S("AttrWord", 0, "")
           [] OTHER -> S(IF c = "dq" THEN "DqItem" ELSE "SqItem", d, c) \o S("StrItems", d - 1, c))
    [] n \in {"DqItem", "SqItem"} ->
         (CASE i \in 1..3 -> S("AttrWord", 0, "")
           [] i = 4 -> S("Var", d, c)
           [] i = 5 -> S("Stmt", d, c)
           [] i = 6 -> IF n = "DqItem" THEN <<T(SQ, "'")>> ELSE <<T(DQ, "\"")>>
           \* comparisons and arrows belong to the value
           [] i = 7 -> <<T("TK_GREATER_THAN", ">")>>
           [] i = 8 -> <<T("TK_LESS_THAN", "<"), <<"t", "TK_NUMBER", "3", TRUE, FALSE>> >>
           [] i = 9 -> <<T("TK_SLASH_GREATER_THAN", "/>")>>)
    [] n = "RawItems" -> IF i = 1 THEN <<>> ELSE S("RawItem", d, c) \o S("RawItems", d - 1, c)
    [] n = "RawItem" ->
         (CASE i \in 1..2 -> S("TextWord", 0, "")
           [] i = 3 -> <<T("TK_EQUAL", "="), T(SQ, "'")>>
           [] i = 4 -> <<T("TK_OPEN_CURLY", "{")>>
           [] i = 5 -> S("Var", d, c)
           [] i = 6 -> S("Stmt", d, c)
           [] i = 7 -> <<T("TK_LESS_THAN", "<"), T("TK_NUMBER", "5")>>
           [] i = 8 -> <<T("TK_LESS_THAN", "<"), G("TK_WORD", "b"), T("TK_GREATER_THAN", ">")>>
           [] i = 9 -> S("Comment", d, c))
    \* what stands between the tags of a statement, depending on the place
    [] n = "Body" ->
         (CASE c = "el" -> S("Items", d - 1, c)
           [] c = "at" -> S("AttrList", d - 1, c)
           [] c = "raw" -> S("RawBody", d - 1, c)
           [] OTHER -> S("StrItems", d - 1, c))
    [] n = "RawBody" -> IF i = 1 THEN <<>> ELSE Nd("HTML_RAW_TEXT", S("RawItem", d, c) \o S("RawItems", d - 1, c))
    [] n = "Comment" ->
         (CASE i \in 1..2 -> Nd("TWIG_COMMENT", S("CO", 0, "") \o S("CommentWords", d, "") \o S("CC", 0, ""))
           [] i = 3 /\ c = "el" -> Nd("HTML_COMMENT", <<T("TK_LESS_THAN_EXCLAMATION_MARK_MINUS_MINUS", "<!--")>> \o S("CommentWords", d, "") \o <<R("TK_MINUS_MINUS_GREATER_THAN", "-->")>>)
           [] i = 4 /\ c = "el" -> Nd("LUDTWIG_DIRECTIVE_IGNORE", <<T("TK_LESS_THAN_EXCLAMATION_MARK_MINUS_MINUS", "<!--"), T("TK_LUDTWIG_IGNORE", "ludtwig-ignore")>> \o Nd("LUDTWIG_DIRECTIVE_RULE_LIST", S("RuleList", d, "")) \o <<R("TK_MINUS_MINUS_GREATER_THAN", "-->")>>)
           [] i = 5 -> Nd("LUDTWIG_DIRECTIVE_FILE_IGNORE", S("CO", 0, "") \o <<T("TK_LUDTWIG_IGNORE_FILE", "ludtwig-ignore-file")>> \o Nd("LUDTWIG_DIRECTIVE_RULE_LIST", S("RuleList", d, "")) \o S("CC", 0, ""))
           [] OTHER -> Nd("LUDTWIG_DIRECTIVE_IGNORE", S("CO", 0, "") \o <<T("TK_LUDTWIG_IGNORE", "ludtwig-ignore")>> \o Nd("LUDTWIG_DIRECTIVE_RULE_LIST", S("RuleList", d, "")) \o S("CC", 0, "")))
    [] n = "CommentWords" ->
         (CASE i = 1 -> <<>>
           [] i \in 2..4 -> S("TextWord", 0, "") \o S("CommentWords", d - 1, "")
           [] i = 5 -> <<T(SQ, "'"), T("TK_LESS_THAN", "<"), T("TK_WORD", "p")>> \o S("CommentWords", d - 1, "")
           [] i = 6 -> <<T("TK_OPEN_CURLY_CURLY", "{{")>> \o S("TextWord", 0, ""))
    [] n = "RuleList" -> IF i = 1 THEN <<>> ELSE S("RuleName", 0, "") \o S("RuleTail", d, "")
    [] n = "RuleTail" -> IF i = 1 THEN <<>> ELSE (IF i = 2 THEN <<T("TK_COMMA", ",")>> ELSE <<>>) \o S("RuleName", 0, "") \o S("RuleTail", d - 1, "")
    [] n = "Var" -> Nd("TWIG_VAR", S("VO", 0, "") \o Ex(d) \o S("VC", 0, ""))
    [] n = "Stmt" -> Stmt(i, d - 1, c)
    [] n = "BlockName" ->
         LET w == BlockNames[((i - 1) % Len(BlockNames)) + 1]
             form == (i - 1) \div Len(BlockNames)
         IN IF form = 3 THEN BlockShort(w, d) ELSE BlockStmt(w, form = 1, d, c)
    [] n = "ElseIfs" ->
         (CASE i = 1 -> <<>>
           [] i = 2 -> Nd("TWIG_ELSE_BLOCK", S("BO", 0, "") \o <<R("TK_ELSE", "else")>> \o S("BC", 0, "")) \o Body(d, c)
           [] OTHER -> Nd("TWIG_ELSE_IF_BLOCK", S("BO", 0, "") \o <<R("TK_ELSE_IF", "elseif")>> \o Ex(d) \o S("BC", 0, "")) \o Body(d, c) \o S("ElseIfs", d - 1, c))
    [] n = "With" -> IF i = 1 THEN <<>> ELSE Nd("TWIG_INCLUDE_WITH", <<T("TK_WITH", "with")>> \o Ex(d))
    [] n = "Only" -> IF i < 3 THEN <<>> ELSE <<T("TK_ONLY", "only")>>
    [] n = "IgnoreMissing" -> IF i < 3 THEN <<>> ELSE <<T("TK_IGNORE_MISSING", "ignore missing")>>
    [] n = "Overrides" ->
         (CASE i = 1 -> Override
           [] i = 2 -> OverrideAs
           [] i = 3 -> Override \o <<R("TK_COMMA", ",")>> \o S("Overrides", d - 1, "")
           [] i = 4 -> OverrideAs \o <<R("TK_COMMA", ",")>> \o S("Overrides", d - 1, ""))
    [] n = "Props" ->
         (CASE i = 1 -> Nd("TWIG_PROP_DECLARATION", Name("SetName"))
           [] i = 2 -> Nd("TWIG_PROP_DECLARATION", Name("SetName") \o <<R("TK_EQUAL", "=")>> \o Ex(d))
           [] i = 3 -> Nd("TWIG_PROP_DECLARATION", Name("SetName") \o <<R("TK_EQUAL", "=")>> \o Ex(d)) \o <<R("TK_COMMA", ",")>> \o S("Props", d - 1, ""))
    [] n = "Bool" -> <<CASE i = 1 -> T("TK_TRUE", "true") [] i = 2 -> T("TK_FALSE", "false") [] i = 3 -> T("TK_TRUE", "True") [] i = 4 -> T("TK_FALSE", "False")>>
    [] n = "Doctype" -> <<IF i = 1 THEN GR("TK_DOCTYPE", "DOCTYPE") ELSE GR("TK_DOCTYPE", "doctype")>>
    [] n = "ArgName" -> <<W(ArgNames[i])>>
    [] n = "Range" ->
         (CASE i = 1 -> S("Chain", d, "") \o <<T("TK_COLON", ":")>> \o Ex(d)
           [] i = 2 -> S("Chain", d, "") \o <<T("TK_COLON", ":")>>
           [] i = 3 -> <<T("TK_COLON", ":")>> \o Ex(d))
    [] n = "EscStrategy" -> (CASE i = 1 -> <<>> [] i = 2 -> <<T("TK_FALSE", "false")>> [] i = 3 -> S("PlainStr", d, ""))
    [] n = "Macro" ->
         LET name == IF i % 2 = 0 THEN "date" ELSE "renderItem"
         IN Nd("TWIG_MACRO",
               Nd("TWIG_MACRO_STARTING_BLOCK", S("BO", 0, "") \o <<R("TK_MACRO", "macro"), RW(name)>> \o WithArgs(d) \o S("BC", 0, ""))
               \o Body(d, c)
               \o Nd("TWIG_MACRO_ENDING_BLOCK", S("BO", 0, "") \o <<R("TK_ENDMACRO", "endmacro")>> \o (IF i > 2 THEN <<W(name)>> ELSE <<>>) \o S("BC", 0, "")))
    [] n = "WithVars" -> IF i = 1 THEN <<>> ELSE Ex(d) \o S("Only", d, "")
    [] n = "CacheTtl" -> IF i = 1 THEN <<>> ELSE Nd("TWIG_CACHE_TTL", <<T("TK_TTL", "ttl"), R("TK_OPEN_PARENTHESIS", "(")>> \o Ex(d) \o <<R("TK_CLOSE_PARENTHESIS", ")")>>)
    [] n = "CacheTags" -> IF i = 1 THEN <<>> ELSE Nd("TWIG_CACHE_TAGS", <<T("TK_TAGS", "tags"), R("TK_OPEN_PARENTHESIS", "(")>> \o Ex(d) \o <<R("TK_CLOSE_PARENTHESIS", ")")>>)
    [] n = "ComponentWith" ->
         IF i = 1 THEN <<>>
         ELSE <<R("TK_WITH", "with")>> \o Nd("TWIG_LITERAL_HASH", <<R("TK_OPEN_CURLY", "{")>> \o Nd("TWIG_LITERAL_HASH_ITEMS", S("HashItems", d, "")) \o <<R("TK_CLOSE_CURLY", "}")>>)
    [] n = "ReturnValue" -> IF i = 1 THEN <<>> ELSE Ex(d)
    [] n = "ShopwareName" -> IF i < 3 THEN Wrap(S("PlainStr", d, "")) ELSE Ex(d)
    [] n = "IconStyle" -> IF i = 1 THEN <<>> ELSE Nd("SHOPWARE_ICON_STYLE", <<T("TK_STYLE", "style")>> \o Ex(d))
    [] n = "ThumbnailsWith" -> IF i = 1 THEN <<>> ELSE Nd("SHOPWARE_THUMBNAILS_WITH", <<T("TK_WITH", "with")>> \o Ex(d))
    [] n = "Applied" ->
         (CASE i = 1 -> Name("FilterName") \o WithArgs(d)
           [] i = 2 -> Pipe(Name("FilterName") \o WithArgs(d), Name("FilterName"), <<>>)
           [] i = 3 -> Pipe(Pipe(Name("FilterName"), Name("FilterName"), WithArgs(d)), Name("FilterName"), <<>>))
    [] n = "Args" ->
         (CASE i = 1 -> <<>>
           [] i \in 2..3 -> S("Arg", d - 1, "")
           [] i = 4 -> S("Arg", d - 1, "") \o <<T("TK_COMMA", ",")>> \o S("Arg", d - 1, "")
           [] OTHER -> S("Arg", d - 1, "") \o <<T("TK_COMMA", ",")>> \o S("Args", d - 2, ""))
    [] n = "Arg" ->
         (CASE i \in 1..3 -> Ex(d)
           [] i = 4 -> Nd("TWIG_NAMED_ARGUMENT", S("ArgName", 0, "") \o <<T("TK_EQUAL", "=")>> \o Ex(d))
           [] i = 5 -> Wrap(Nd("TWIG_ARROW_FUNCTION", Nd("TWIG_ARGUMENTS", Name("VarName")) \o <<T("TK_EQUAL_GREATER_THAN", "=>")>> \o Ex(d)))
           [] i = 6 -> Wrap(Nd("TWIG_ARROW_FUNCTION", Nd("TWIG_ARGUMENTS", <<T("TK_OPEN_PARENTHESIS", "(")>> \o Name("VarName") \o <<R("TK_COMMA", ",")>> \o Name("VarName") \o <<R("TK_CLOSE_PARENTHESIS", ")")>>)
                        \o <<T("TK_EQUAL_GREATER_THAN", "=>")>> \o Ex(d))))
    [] n = "Expr" -> Expr(i, d - 1)
    [] n = "Opd" -> Opd(i, d - 1)
    [] n = "Prim" -> Prim(i, d)
    [] n = "Str" ->
         (CASE i = 1 -> StrNode("'", SQ, <<>>)
           [] i \in 2..3 -> StrNode("'", SQ, S("StrWord", 0, "") \o S("StrWord", 0, ""))
           [] i = 4 -> StrNode("\"", DQ, S("StrWord", 0, ""))
           [] i = 5 -> StrNode("\"", DQ, S("StrWord", 0, "") \o <<T(SQ, "'")>>)
           [] i = 6 -> StrNode("'", SQ, S("StrWord", 0, "") \o <<T("TK_BACKWARD_SLASH", "\\"), G(SQ, "'")>>)
           [] i = 7 -> StrNode("\"", DQ, S("StrWord", 0, "") \o Interpolation(d - 1) \o S("StrWord", 0, ""))
           [] i = 8 -> StrNode("'", SQ, <<T(DQ, "\"")>> \o S("StrWord", 0, ""))
           [] i = 9 -> StrNode("'", SQ, S("StrParts", d, "sq"))
           [] i = 10 -> StrNode("\"", DQ, S("StrParts", d, "dq"))
           [] i = 11 -> StrNode("\"", DQ, S("StrParts", d, "dq") \o Interpolation(d - 1) \o S("StrParts", d - 1, "dq")))
    \* whatever may stand in a string: only its own quote and, between double
    \* quotes, #{ mean something
    [] n = "StrParts" -> (CASE i \in 1..2 -> S("StrPart", d, c) [] OTHER -> S("StrPart", d, c) \o S("StrParts", d - 1, c))
    [] n = "StrPart" ->
         (CASE i = 1 -> S("StrWord", 0, "")
           [] i = 2 -> <<T("TK_BACKWARD_SLASH", "\\"), G("TK_BACKWARD_SLASH", "\\")>>
           [] i = 3 -> <<T("TK_BACKWARD_SLASH", "\\"), G("TK_WORD", "n")>>
           [] i = 4 -> <<T("TK_BACKWARD_SLASH", "\\"), IF c = "sq" THEN G(SQ, "'") ELSE G(DQ, "\"")>>
           [] i = 5 -> <<T("TK_BACKWARD_SLASH", "\\"), IF c = "sq" THEN G(DQ, "\"") ELSE G(SQ, "'")>>
           [] i = 6 -> <<IF c = "sq" THEN T(DQ, "\"") ELSE T(SQ, "'")>>
           [] i = 7 -> <<T("TK_BACKWARD_SLASH", "\\")>>
           [] i = 8 -> <<T("TK_HASHTAG", "#")>>
           [] i = 9 -> <<T("TK_OPEN_CURLY", "{")>>
           [] i = 10 -> <<T("TK_CLOSE_CURLY", "}")>>
           [] i = 11 -> <<T("TK_OPEN_CURLY_CURLY", "{{")>>
           [] i = 12 -> <<T("TK_CLOSE_CURLY_CURLY", "}}")>>
           [] i = 13 -> <<T("TK_CURLY_PERCENT", "{%")>>
           [] i = 14 -> <<T("TK_MINUS_PERCENT_CURLY", "-%}")>>
           [] i = 15 -> <<T("TK_LESS_THAN", "<"), G("TK_WORD", "div"), G("TK_GREATER_THAN", ">")>>
           [] i = 16 -> <<T("TK_LESS_THAN_SLASH", "</"), G("TK_WORD", "p"), G("TK_GREATER_THAN", ">")>>
           [] i = 17 -> <<T("TK_OPEN_CURLY_HASHTAG", "{#")>>
           [] i = 18 -> <<T("TK_HASHTAG_CLOSE_CURLY", "#}")>>
           [] i = 19 -> <<T("TK_DOUBLE_AMPERSAND", "&&")>>
           [] i = 20 -> <<T("TK_LESS_THAN_EXCLAMATION_MARK_MINUS_MINUS", "<!--")>>
           [] i = 21 -> <<T("TK_OPEN_PARENTHESIS", "("), T("TK_CLOSE_SQUARE", "]")>>
           [] i = 22 -> <<T("TK_TRIPLE_EQUAL", "===")>>
           [] i = 23 -> <<T("TK_ENDBLOCK", "endblock"), T("TK_NOT", "not"), T("TK_SAME_AS", "same as")>>
           [] i = 24 -> <<T("TK_SINGLE_PIPE", "|"), G("TK_WORD", "raw"), T("TK_COLON", ":"), T("TK_COMMA", ",")>>
           [] i = 25 -> IF c = "dq" THEN <<T("TK_BACKWARD_SLASH", "\\"), G("TK_HASHTAG", "#"), G("TK_OPEN_CURLY", "{"), T("TK_PLUS", "+")>> ELSE <<T("TK_HASHTAG", "#"), G("TK_OPEN_CURLY", "{"), T("TK_PLUS", "+")>>
           [] i = 26 -> <<T("TK_NUMBER", "1"), G("TK_DOT", "."), T("TK_MINUS", "-")>>)
    [] n = "PlainStr" ->
         (CASE i = 1 -> StrNode("'", SQ, S("StrWord", 0, ""))
           [] i = 2 -> StrNode("\"", DQ, S("StrWord", 0, ""))
           [] i = 3 -> StrNode("'", SQ, <<T("TK_WORD", "storefront"), G("TK_FORWARD_SLASH", "/"), G("TK_WORD", "base"), G("TK_DOT", "."), G("TK_WORD", "html"), G("TK_DOT", "."), G("TK_WORD", "twig")>>)
           [] i = 4 -> StrNode("\"", DQ, <<T("TK_WORD", "it"), G(SQ, "'"), G("TK_WORD", "s")>>))
    [] n = "ArrItems" ->
         (CASE i = 1 -> <<>>
           [] i = 2 -> Ex(d)
           [] i = 3 -> Ex(d - 1) \o <<T("TK_COMMA", ",")>> \o Ex(d - 1)
           [] i = 4 -> Ex(d) \o <<T("TK_COMMA", ",")>>)
    [] n = "HashItems" ->
         (CASE i = 1 -> <<>>
           [] i = 2 -> S("HashPair", d, "")
           [] i = 3 -> S("HashPair", d, "") \o <<R("TK_COMMA", ",")>> \o S("HashPair", d - 1, "")
           [] i = 4 -> S("HashPair", d, "") \o <<T("TK_COMMA", ",")>>)
    [] n = "HashPair" ->
         IF i = 1 THEN Nd("TWIG_LITERAL_HASH_PAIR", Nd("TWIG_LITERAL_HASH_KEY", S("VarName", 0, "")))
         ELSE Nd("TWIG_LITERAL_HASH_PAIR", S("HashKey", d, "") \o <<R("TK_COLON", ":")>> \o Ex(d))
    [] n = "HashKey" ->
         (CASE i \in 1..2 -> Nd("TWIG_LITERAL_HASH_KEY", S("VarName", 0, ""))
           [] i = 3 -> Nd("TWIG_LITERAL_HASH_KEY", Nd("TWIG_LITERAL_NUMBER", <<T("TK_NUMBER", "1")>>))
           [] i = 4 -> Nd("TWIG_LITERAL_HASH_KEY", StrNode("'", SQ, S("StrWord", 0, "")))
           [] i = 5 -> Nd("TWIG_LITERAL_HASH_KEY", StrNode("\"", DQ, <<T("TK_WORD", "my-key")>>))
           [] i = 6 -> Nd("TWIG_LITERAL_HASH_KEY", <<T("TK_OPEN_PARENTHESIS", "(")>> \o Ex(d) \o <<R("TK_CLOSE_PARENTHESIS", ")")>>))
    \* the right hand side of is / is not
    [] n = "TestOpd" ->
         (CASE i <= Len(TestNames) /\ TestNames[i][2] = "null" -> Nd("TWIG_LITERAL_NULL", <<T("TK_NULL", "null")>>)
           [] i <= Len(TestNames) /\ TestNames[i][2] \notin {"same as", "constant"} -> Nd("TWIG_LITERAL_NAME", <<W(TestNames[i][2])>>)
           [] i <= Len(TestNames) -> Call(Nd("TWIG_LITERAL_NAME", <<W(TestNames[i][2])>>), d)
           [] i = Len(TestNames) + 1 -> Nd("TWIG_FUNCTION_CALL", Nd("TWIG_OPERAND", Nd("TWIG_LITERAL_NAME", <<W("same as")>>)) \o Nd("TWIG_ARGUMENTS", Wrap(S("SimpleArg", d - 1, ""))))
           [] i = Len(TestNames) + 2 -> Call(Nd("TWIG_LITERAL_NAME", <<W("divisible by")>>), d)
           [] OTHER -> Nd("TWIG_FUNCTION_CALL", Nd("TWIG_OPERAND", Nd("TWIG_LITERAL_NAME", <<W("divisible by")>>)) \o Nd("TWIG_ARGUMENTS", Wrap(S("SimpleArg", d - 1, "")))))
    [] n = "SimpleArg" ->
         (CASE i = 1 -> Name("VarName")
           [] i = 2 -> Nd("TWIG_LITERAL_NUMBER", S("Num", 0, ""))
           [] i = 3 -> S("Str", d, "")
           [] i = 4 -> Access(Name("VarName"), Name("VarName")))

Counts(n) ==
  CASE n = "AttrName" -> Len(AttrNames)
    [] n = "VoidTag" -> Len(VoidNames)
    [] n = "RawTag" -> Len(RawNames)
    [] n = "RawBody" -> 3
    [] n = "SimpleArg" -> 4
    [] OTHER -> Count(n)

(* Names and delimiters may vary freely even when the derivation has to end *)
Terminal(n) == n \in PoolNames \cup DelimNames \cup {"AttrName", "VoidTag", "RawTag", "Tag", "BlockName", "Bool", "Doctype", "ArgName"}

------------------------------------------------------------------------------
(* Chains of operands and operators (grouped by Expr!Group).  A chain is    *)
(* chosen by giving its items: 0 = operand, otherwise an operator.          *)
(* After is / is not the operand is a test, and an operator that binds      *)
(* tighter than the test itself would not follow it.                        *)
ChainItem(code, d) ==
  CASE code[1] = "opd" -> <<"opd", S("Opd", d, "")>>
    [] code[1] = "test" -> <<"opd", S("TestOpd", d, "")>>
    [] code[1] = "pre" -> <<"pre", PreOps[code[2]][1], PreOps[code[2]][2]>>
    [] code[1] = "bin" -> <<"bin", BinOps[code[2]][1], BinOps[code[2]][2]>>
ChainSyms(codes, d) == Wrap(Group([j \in 1..Len(codes) |-> ChainItem(codes[j], d)]))
=============================================================================
