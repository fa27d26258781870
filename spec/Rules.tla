-------------------------------- MODULE Rules --------------------------------
(* The rules of the linter: what each of them has to report on a syntax     *)
(* tree under a configuration.                                              *)
(*                                                                          *)
(* A tree T is a sequence of elements in preorder, each one a record        *)
(*   k kind, t text (tokens), s/e first and last character position,        *)
(*   p parent, c children, v/w previous/next sibling, l last element inside,*)
(*   pt/nt previous/next token                                              *)
(* (positions in T; 0: none).  A finding is a record                        *)
(*   [sev, prim, sec, sug]: severity, <<from, to>>, set of <<from, to>>,    *)
(*   set of edits <<from, to, text>>.                                       *)
EXTENDS Integers, Sequences, FiniteSets, TLC

AllRules == << "ludtwig-ignore-file-not-on-top", "whitespace-between-line-breaks", "line-ending", "indentation", "twig-block-line-breaks",
  "twig-block-name-snake-case", "html-attribute-name-kebab-case", "twig-logic-and", "twig-logic-or", "twig-string-quotation", "html-string-quotation",
  "twig-hash-key-no-quotes", "twig-prefer-shopware-extends", "twig-use-is-same-as", "twig-use-is-not-same-as", "twig-block-duplicate",
  "twig-json-encode-escape-js", "html-duplicate-id", "twig-variable-definition-naming", "twig-valid-filter", "twig-valid-test", "twig-valid-function" >>

------------------------------------------------------------------------------
(* Text                                                                     *)
At(x, i) == SubSeq(x, i, i)
HasText(x, c) == \E i \in 1..(Len(x) - Len(c) + 1) : SubSeq(x, i, i + Len(c) - 1) = c
RECURSIVE Repeat(_, _)
Repeat(x, n) == IF n <= 0 THEN "" ELSE x \o Repeat(x, n - 1)
Lower == {"a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l", "m", "n", "o", "p", "q", "r", "s", "t", "u", "v", "w", "x", "y", "z"}
Upper == {"A", "B", "C", "D", "E", "F", "G", "H", "I", "J", "K", "L", "M", "N", "O", "P", "Q", "R", "S", "T", "U", "V", "W", "X", "Y", "Z"}
Digit == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
LowerOf(c) ==
  CASE c = "A" -> "a" [] c = "B" -> "b" [] c = "C" -> "c" [] c = "D" -> "d" [] c = "E" -> "e" [] c = "F" -> "f" [] c = "G" -> "g" [] c = "H" -> "h"
    [] c = "I" -> "i" [] c = "J" -> "j" [] c = "K" -> "k" [] c = "L" -> "l" [] c = "M" -> "m" [] c = "N" -> "n" [] c = "O" -> "o" [] c = "P" -> "p"
    [] c = "Q" -> "q" [] c = "R" -> "r" [] c = "S" -> "s" [] c = "T" -> "t" [] c = "U" -> "u" [] c = "V" -> "v" [] c = "W" -> "w" [] c = "X" -> "x"
    [] c = "Y" -> "y" [] c = "Z" -> "z" [] OTHER -> c
(* the letters and digits of a name, in lower case                          *)
RECURSIVE Essence(_)
Essence(x) == IF x = "" THEN "" ELSE LET c == At(x, 1) IN (IF c \in {"_", "-"} THEN "" ELSE LowerOf(c)) \o Essence(SubSeq(x, 2, Len(x)))

(* words of the given characters, one separator between two words           *)
Separated(x, chars, sep) ==
  /\ Len(x) > 0
  /\ \A i \in 1..Len(x) : At(x, i) \in chars \cup {sep}
  /\ At(x, 1) # sep /\ At(x, Len(x)) # sep
  /\ \A i \in 1..(Len(x) - 1) : ~(At(x, i) = sep /\ At(x, i + 1) = sep)
SnakeCase(x) == Separated(x, Lower \cup Digit, "_")
ScreamingSnakeCase(x) == Separated(x, Upper \cup Digit, "_")
(* an attribute may begin with the shorthand of a frontend framework        *)
KebabCase(x) ==
  \/ Separated(x, Lower \cup Digit, "-")
  \/ /\ Len(x) > 0 /\ At(x, 1) \in {":", "@", "#"}
     /\ Separated("a" \o SubSeq(x, 2, Len(x)), Lower \cup Digit, "-")
RECURSIVE NoUnderscores(_)
NoUnderscores(x) == IF Len(x) > 0 /\ At(x, 1) = "_" THEN NoUnderscores(SubSeq(x, 2, Len(x))) ELSE x
CamelCase(x) == LET y == NoUnderscores(x) IN y = "" \/ (At(y, 1) \in Lower /\ ~HasText(y, "_") /\ ~HasText(y, "-"))
(* a word of ASCII letters, digits and underscores                          *)
TwigName(x) == Len(x) > 0 /\ At(x, 1) \in Lower \cup Upper \cup {"_"} /\ \A i \in 1..Len(x) : At(x, i) \in Lower \cup Upper \cup Digit \cup {"_"}

------------------------------------------------------------------------------
(* Trees                                                                    *)
IsToken(T, n) == Len(T[n].k) > 3 /\ SubSeq(T[n].k, 1, 3) = "TK_"
Trivia == {"TK_WHITESPACE", "TK_LINE_BREAK"}
Comments == {"TWIG_COMMENT", "HTML_COMMENT", "LUDTWIG_DIRECTIVE_FILE_IGNORE", "LUDTWIG_DIRECTIVE_IGNORE"}
Range(T, n) == <<T[n].s, T[n].e>>
(* the first child of that kind, 0 if there is none                         *)
RECURSIVE FirstOf(_, _, _, _)
FirstOf(T, cs, i, S) == IF i > Len(cs) THEN 0 ELSE IF T[cs[i]].k \in S THEN cs[i] ELSE FirstOf(T, cs, i + 1, S)
Child(T, n, k) == IF n = 0 THEN 0 ELSE FirstOf(T, T[n].c, 1, {k})
Children(T, n, k) == IF n = 0 THEN <<>> ELSE SelectSeq(T[n].c, LAMBDA m : T[m].k = k)
Nodes(T, n) == SelectSeq(T[n].c, LAMBDA m : ~IsToken(T, m))
RECURSIVE PrevNode(_, _), NextNode(_, _)
PrevNode(T, n) == LET m == T[n].v IN IF m = 0 THEN 0 ELSE IF IsToken(T, m) THEN PrevNode(T, m) ELSE m
NextNode(T, n) == LET m == T[n].w IN IF m = 0 THEN 0 ELSE IF IsToken(T, m) THEN NextNode(T, m) ELSE m
Tokens(T, n) == { m \in n..T[n].l : IsToken(T, m) }
RECURSIVE FirstToken(_, _, _), LastToken(_, _, _)
FirstToken(T, m, l) == IF m > l THEN 0 ELSE IF IsToken(T, m) THEN m ELSE FirstToken(T, m + 1, l)
LastToken(T, m, f) == IF m < f THEN 0 ELSE IF IsToken(T, m) THEN m ELSE LastToken(T, m - 1, f)
(* without the whitespace in front of it                                     *)
RECURSIVE FirstSolid(_, _, _)
FirstSolid(T, m, l) == IF m > l THEN 0 ELSE IF IsToken(T, m) /\ T[m].k \notin Trivia THEN m ELSE FirstSolid(T, m + 1, l)
Trimmed(T, n) == LET m == FirstSolid(T, n, T[n].l) IN <<IF m = 0 THEN T[n].s ELSE T[m].s, T[n].e>>
(* the text from the first to the last token that is not whitespace         *)
RECURSIVE TextOf(_, _, _)
TextOf(T, m, l) == IF m > l THEN "" ELSE T[m].t \o TextOf(T, m + 1, l)
TrimmedText(T, n) ==
  LET solid == { m \in Tokens(T, n) : T[m].k \notin Trivia }
  IN IF solid = {} THEN "" ELSE LET a == CHOOSE m \in solid : \A o \in solid : m <= o
                                    b == CHOOSE m \in solid : \A o \in solid : m >= o
                                IN TextOf(T, a, b)

------------------------------------------------------------------------------
(* Where an element stands: in a malformed region, in content whose         *)
(* whitespace matters, in elements ignored for some rules ("*": all), how   *)
(* deep it is indented (lev: levels, sub: spaces of a start tag's attributes) *)
Directive(T, n) == T[n].v # 0 /\ T[T[n].v].k = "LUDTWIG_DIRECTIVE_IGNORE"
ListedRules(T, d) ==
  LET list == Child(T, d, "LUDTWIG_DIRECTIVE_RULE_LIST")
      ws == Children(T, list, "TK_WORD")
  IN IF Len(ws) = 0 THEN {"*"} ELSE { T[ws[i]].t : i \in 1..Len(ws) }

TagName(T, n) ==
  LET st == IF T[n].k = "HTML_TAG" THEN Child(T, n, "HTML_STARTING_TAG") ELSE n
  IN IF st = 0 THEN 0 ELSE FirstOf(T, T[st].c, 1, {"TK_WORD", "TK_TWIG_COMPONENT_NAME"})
RawTag(T, n) == T[n].k = "HTML_TAG" /\ TagName(T, n) # 0 /\ T[TagName(T, n)].t \in {"pre", "textarea", "script", "style"}
Verbatim(T, n) == RawTag(T, n) \/ T[n].k = "TWIG_LITERAL_STRING_INNER"

Indents(T, n, cfg) ==
  /\ T[n].k \in {"BODY", "TWIG_ARGUMENTS", "TWIG_LITERAL_ARRAY_INNER", "TWIG_LITERAL_HASH_ITEMS", "TWIG_PROP_DECLARATION"}
  /\ cfg.indentChildrenOfBlocks \/ T[n].p = 0 \/ T[T[n].p].k # "TWIG_BLOCK"
Aligns(T, n) ==
  IF T[n].k = "HTML_ATTRIBUTE_LIST" /\ T[n].p # 0 /\ T[T[n].p].k = "HTML_STARTING_TAG" /\ TagName(T, T[n].p) # 0
  THEN Len(T[TagName(T, T[n].p)].t) + 2 ELSE 0

RECURSIVE Places(_, _, _, _)
Places(T, n, acc, cfg) ==
  IF n > Len(T) THEN acc
  ELSE LET up == IF T[n].p = 0 THEN [err |-> FALSE, verb |-> FALSE, value |-> FALSE, ign |-> {}, lev |-> 0, sub |-> 0] ELSE acc[T[n].p]
           here == IF IsToken(T, n) THEN [up EXCEPT !.ign = IF Directive(T, n) THEN @ \cup ListedRules(T, T[n].v) ELSE @]
                   ELSE [err   |-> up.err \/ T[n].k = "ERROR",
                         verb  |-> up.verb \/ Verbatim(T, n),
                         value |-> up.value \/ T[n].k = "HTML_STRING_INNER",
                         ign   |-> IF Directive(T, n) THEN up.ign \cup ListedRules(T, T[n].v) ELSE up.ign,
                         lev   |-> up.lev + (IF Indents(T, n, cfg) THEN 1 ELSE 0),
                         sub   |-> up.sub + Aligns(T, n)]
       IN Places(T, n + 1, Append(acc, here), cfg)

Seen(P, n, rule) == ~P[n].err /\ rule \notin P[n].ign /\ "*" \notin P[n].ign
(* may the whitespace there be changed?                                     *)
Loose(P, n) == ~P[n].verb /\ ~P[n].value

Finding(sev, prim, sec, sug) == [sev |-> sev, prim |-> prim, sec |-> sec, sug |-> sug]
LineEnding(cfg) == cfg.lineEnding

------------------------------------------------------------------------------
(* line breaks and whitespace                                               *)
RECURSIVE Breaks(_, _, _)
(* the single line breaks of a line break token: <<offset, text>>           *)
Breaks(x, i, acc) ==
  IF i > Len(x) THEN acc
  ELSE IF At(x, i) = "\r" /\ i < Len(x) /\ At(x, i + 1) = "\n" THEN Breaks(x, i + 2, acc \cup {<<i - 1, "\r\n">>})
  ELSE IF At(x, i) = "\n" THEN Breaks(x, i + 1, acc \cup {<<i - 1, "\n">>})
  ELSE Breaks(x, i + 1, acc)
LineEndings(T, P, cfg, R) ==
  UNION { { LET r == <<T[n].s + b[1], T[n].s + b[1] + Len(b[2])>> IN Finding("warning", r, {}, {<<r[1], r[2], cfg.lineEnding>>})
            : b \in { b \in Breaks(T[n].t, 1, {}) : b[2] # cfg.lineEnding } }
          : n \in { n \in 1..Len(T) : T[n].k = "TK_LINE_BREAK" /\ Seen(P, n, R) } }

EmptyLines(T, P, cfg, R) ==
  { LET m == T[n].nt IN Finding("help", Range(T, m), {}, {<<T[m].s, T[m].e, "">>})
    : n \in { n \in 1..Len(T) : /\ T[n].k = "TK_LINE_BREAK" /\ Seen(P, n, R) /\ Loose(P, n)
                                /\ T[n].nt # 0 /\ T[T[n].nt].k = "TK_WHITESPACE"
                                /\ T[T[n].nt].nt # 0 /\ T[T[T[n].nt].nt].k = "TK_LINE_BREAK" } }

(* The first token of a line.  A line break inside of a string does not     *)
(* begin a line that could be indented.                                     *)
LineStart(T, n) ==
  /\ IsToken(T, n) /\ T[n].k # "TK_LINE_BREAK"
  /\ \/ T[n].pt = 0
     \/ T[T[n].pt].k = "TK_LINE_BREAK" /\ T[T[T[n].pt].p].k # "TWIG_LITERAL_STRING_INNER"
Indentation(T, P, cfg, R) ==
  LET want(n) == Repeat(cfg.indentationMode, P[n].lev * cfg.indentationCount) \o Repeat(" ", P[n].sub)
  IN { IF T[n].k = "TK_WHITESPACE" THEN Finding("help", Range(T, n), {}, {<<T[n].s, T[n].e, want(n)>>})
       ELSE Finding("help", <<T[n].s, T[n].s>>, {}, {<<T[n].s, T[n].s, want(n)>>})
       : n \in { n \in 1..Len(T) : /\ LineStart(T, n) /\ ~P[n].verb /\ Seen(P, n, R)
                                   /\ IF T[n].k = "TK_WHITESPACE" THEN T[n].t # want(n) ELSE want(n) # "" } }

(* Behind a block whose tags are malformed an element without any text can   *)
(* follow; what has to stand there is left open: blind selects these.       *)
BlockLineBreaks(T, P, cfg, R, blind) ==
  LET comment(n) == n # 0 /\ T[n].k \in Comments
      \* neighbours of a block; a comment next to it belongs to it
      prev(b) == LET n == PrevNode(T, b) IN IF comment(n) THEN PrevNode(T, n) ELSE n
      next(b) == LET n == NextNode(T, b) IN IF comment(n) THEN NextNode(T, n) ELSE n
      many == IF cfg.linebreaksAroundBlocks THEN 2 ELSE 1
      first(n) == FirstToken(T, n, T[n].l)
      spot(t, k) ==
        LET want == Repeat(cfg.lineEnding, k) IN
        IF t = 0 THEN {}
        ELSE IF T[t].k = "TK_LINE_BREAK" THEN IF T[t].t = want THEN {} ELSE {Finding("help", Range(T, t), {}, {<<T[t].s, T[t].e, want>>})}
        ELSE {Finding("help", <<T[t].s, T[t].s>>, {}, {<<T[t].s, T[t].s, want>>})}
      start(b) == Child(T, b, "TWIG_STARTING_BLOCK")
      end(b) == Child(T, b, "TWIG_ENDING_BLOCK")
      before(b) == LET c == PrevNode(T, b) IN spot(first(IF comment(c) THEN c ELSE start(b)), IF prev(b) = 0 THEN 1 ELSE many)
      after(b) ==
        LET lt == LastToken(T, T[end(b)].l, end(b)) IN
        IF next(b) # 0 /\ T[next(b)].k = "TWIG_BLOCK" THEN {}      \* that one takes care of it
        ELSE IF blind # (lt # 0 /\ \E m \in (lt + 1)..(IF T[lt].nt = 0 THEN Len(T) ELSE T[lt].nt) : ~IsToken(T, m) /\ T[m].l = m) THEN {}
        ELSE spot(IF lt = 0 THEN 0 ELSE T[lt].nt, IF NextNode(T, b) = 0 THEN 1 ELSE many)
  IN UNION { (IF blind THEN {} ELSE before(b)) \cup after(b)
             : b \in { b \in 1..Len(T) : /\ T[b].k = "TWIG_BLOCK" /\ Seen(P, b, R) /\ Loose(P, b)
                                         /\ start(b) # 0 /\ end(b) # 0
                                         /\ ~(T[T[b].p].k = "ROOT" /\ prev(b) = 0) } }

------------------------------------------------------------------------------
(* names                                                                    *)
(* A name that breaks its convention; whether a better one is suggested is  *)
(* left open, but not which ones may be: see NameFindings.                  *)
BlockNames(T, P, R) ==
  { n \in { Child(T, b, "TK_WORD") : b \in { b \in 1..Len(T) : T[b].k = "TWIG_STARTING_BLOCK" /\ Seen(P, b, R) } } : n # 0 /\ ~SnakeCase(T[n].t) }
RECURSIVE StartTag(_, _)
StartTag(T, n) == IF n = 0 THEN 0 ELSE IF T[n].k = "HTML_STARTING_TAG" THEN n ELSE StartTag(T, T[n].p)
OfComponent(T, a) == StartTag(T, a) # 0 /\ Child(T, StartTag(T, a), "TK_TWIG_COMPONENT_NAME") # 0
AttributeNames(T, P, R) ==
  { n \in { Child(T, a, "TK_WORD") : a \in { a \in 1..Len(T) : T[a].k = "HTML_ATTRIBUTE" /\ Seen(P, a, R) /\ ~OfComponent(T, a) } } : n # 0 /\ ~KebabCase(T[n].t) }

LiteralName(T, n) == LET m == Child(T, n, "TWIG_LITERAL_NAME") IN IF m = 0 THEN 0 ELSE Child(T, m, "TK_WORD")
CalledName(T, call) == IF call = 0 THEN 0 ELSE LiteralName(T, Child(T, call, "TWIG_OPERAND"))
SetsConstant(T, a) ==
  LET c == CalledName(T, Child(T, Child(T, a, "TWIG_EXPRESSION"), "TWIG_FUNCTION_CALL")) IN c # 0 /\ T[c].t = "constant"
VariableNames(T, P, R) ==
  UNION { LET names == { Child(T, m, "TK_WORD") : m \in { T[a].c[i] : i \in { i \in 1..Len(T[a].c) : T[T[a].c[i]].k = "TWIG_LITERAL_NAME" } } } \ {0}
              const == T[a].k = "TWIG_ASSIGNMENT" /\ SetsConstant(T, a)
          IN { Finding("help", Range(T, n), {}, {}) : n \in { n \in names : IF const THEN ~ScreamingSnakeCase(T[n].t) ELSE ~CamelCase(T[n].t) } }
          : a \in { a \in 1..Len(T) : T[a].k \in {"TWIG_ASSIGNMENT", "TWIG_FOR_BLOCK"} /\ Seen(P, a, R) } }

------------------------------------------------------------------------------
(* duplicates                                                               *)
Repeats(T, sev, at, text(_), range(_)) ==
  { LET f == CHOOSE m \in at : text(m) = text(n) /\ \A o \in at : text(o) = text(n) => m <= o
    IN Finding(sev, range(n), {range(f)}, {}) : n \in { n \in at : \E m \in at : m < n /\ text(m) = text(n) } }
BlockDuplicates(T, P, R) ==
  LET name(b) == Child(T, Child(T, b, "TWIG_STARTING_BLOCK"), "TK_WORD")
      at == { name(b) : b \in { b \in 1..Len(T) : T[b].k = "TWIG_BLOCK" /\ Seen(P, b, R) /\ name(b) # 0 } }
      text(n) == T[n].t
      range(n) == Range(T, n)
  IN Repeats(T, "error", at, text, range)
DuplicateIds(T, P, R) ==
  LET name(a) == Child(T, a, "TK_WORD")
      inner(a) == Child(T, Child(T, a, "HTML_STRING"), "HTML_STRING_INNER")
      text(i) == TextOf(T, i + 1, T[i].l)
      at == { inner(a) : a \in { a \in 1..Len(T) : /\ T[a].k = "HTML_ATTRIBUTE" /\ Seen(P, a, R)
                                                   /\ name(a) # 0 /\ T[name(a)].t = "id"
                                                   /\ inner(a) # 0 /\ Len(Nodes(T, inner(a))) = 0 /\ text(inner(a)) # "" } }
      range(n) == Range(T, n)
  IN Repeats(T, "warning", at, text, range)

------------------------------------------------------------------------------
(* filters, tests and functions                                             *)
FilterName(T, f) ==
  LET ops == Children(T, f, "TWIG_OPERAND") IN
  IF Len(ops) < 2 THEN 0
  ELSE IF Child(T, ops[2], "TWIG_LITERAL_NAME") # 0 THEN LiteralName(T, ops[2])
  ELSE CalledName(T, Child(T, ops[2], "TWIG_FUNCTION_CALL"))
Unknown(T, names, valid) == { Finding("warning", Range(T, n), {}, {}) : n \in { n \in names : n # 0 /\ T[n].t \notin valid } }
ValidFilters(T, P, cfg, R) ==
  Unknown(T, { FilterName(T, f) : f \in { f \in 1..Len(T) : T[f].k = "TWIG_FILTER" /\ Seen(P, f, R) } }, cfg.validFilters)

(* the operator of a binary expression and what stands behind it            *)
Operator(T, b) == LET o == SelectSeq(T[b].c, LAMBDA m : IsToken(T, m) /\ T[m].k \notin Trivia) IN IF Len(o) = 0 THEN 0 ELSE o[1]
Behind(T, b) ==
  LET o == Operator(T, b)
      r == SelectSeq(T[b].c, LAMBDA m : m > o /\ T[m].k = "TWIG_EXPRESSION")
  IN IF o = 0 \/ Len(r) = 0 THEN 0 ELSE r[1]
Before(T, b) ==
  LET o == Operator(T, b)
      r == SelectSeq(T[b].c, LAMBDA m : m < o /\ ~IsToken(T, m))
  IN IF o = 0 \/ Len(r) = 0 THEN 0 ELSE r[1]
IsTest(T, b) == T[b].k = "TWIG_BINARY_EXPRESSION" /\ Operator(T, b) # 0 /\ T[Operator(T, b)].k \in {"TK_IS", "TK_IS_NOT"}
TestName(T, b) ==
  LET r == Behind(T, b) IN
  IF r = 0 THEN 0 ELSE IF Child(T, r, "TWIG_LITERAL_NAME") # 0 THEN LiteralName(T, r) ELSE CalledName(T, Child(T, r, "TWIG_FUNCTION_CALL"))
ValidTests(T, P, cfg, R) ==
  Unknown(T, { TestName(T, b) : b \in { b \in 1..Len(T) : IsTest(T, b) /\ Seen(P, b, R) } }, cfg.validTests)
(* a call that names a test or a filter                                     *)
CallOfTest(T, c) == T[c].p # 0 /\ T[T[c].p].p # 0 /\ IsTest(T, T[T[c].p].p) /\ Behind(T, T[T[c].p].p) = T[c].p
CallOfFilter(T, c) ==
  /\ T[c].p # 0 /\ T[T[c].p].k = "TWIG_OPERAND" /\ T[T[c].p].p # 0 /\ T[T[T[c].p].p].k = "TWIG_FILTER"
  /\ Children(T, T[T[c].p].p, "TWIG_OPERAND")[1] # T[c].p
ValidFunctions(T, P, cfg, R) ==
  Unknown(T, { CalledName(T, c) : c \in { c \in 1..Len(T) : T[c].k = "TWIG_FUNCTION_CALL" /\ Seen(P, c, R) /\ ~CallOfTest(T, c) /\ ~CallOfFilter(T, c) } }, cfg.validFunctions)

------------------------------------------------------------------------------
(* quotes                                                                   *)
Quoted(T, n, quote, inner, tricky) ==
  LET toks == SelectSeq(T[n].c, LAMBDA m : IsToken(T, m) /\ T[m].k \notin Trivia)
      nodes == Nodes(T, n)
      fence == IF Len(nodes) = 0 THEN Len(T) + 1 ELSE nodes[1]
      open == LET q == SelectSeq(toks, LAMBDA m : m < fence) IN IF Len(q) = 0 THEN 0 ELSE q[1]
      close == LET q == SelectSeq(toks, LAMBDA m : m > fence) IN IF Len(q) = 0 THEN 0 ELSE q[1]
      fine(q) == q # 0 /\ At(T[q].t, 1) = quote
      i == Child(T, n, inner)
      clash == \E m \in Tokens(T, i) : HasText(T[m].t, quote)
      \* right in front of an unquoted value
      front == LET solid == { m \in Tokens(T, i) : T[m].k \notin Trivia } IN IF solid = {} THEN T[i].s ELSE T[CHOOSE m \in solid : \A o \in solid : m <= o].s
      edits == { IF open # 0 THEN <<T[open].s, T[open].e, quote>> ELSE <<front, front, quote>>,
                 IF close # 0 THEN <<T[close].s, T[close].e, quote>> ELSE <<T[i].e, T[i].e, quote>> }
  IN IF fine(open) /\ fine(close) THEN {}
     ELSE {Finding("help", Trimmed(T, n), {}, IF i = 0 THEN {} ELSE IF clash \/ (tricky /\ ~fine(open)) \/ (open = 0) # (close = 0) THEN {} ELSE edits)}
(* (a string that lacks one of its quotes is malformed: no edit)             *)
(* would this text become an interpolation between double quotes?           *)
LikeInterpolation(T, i) == i # 0 /\ HasText(TextOf(T, i + 1, T[i].l), "#{")
TwigQuotes(T, P, cfg, R) ==
  UNION { LET i == Child(T, n, "TWIG_LITERAL_STRING_INNER") IN
          Quoted(T, n, cfg.twigQuotation, "TWIG_LITERAL_STRING_INNER", cfg.twigQuotation = "\"" /\ LikeInterpolation(T, i))
          : n \in { n \in 1..Len(T) : /\ T[n].k = "TWIG_LITERAL_STRING" /\ Seen(P, n, R)
                                      /\ ~(cfg.twigQuotation = "'" /\ Child(T, Child(T, n, "TWIG_LITERAL_STRING_INNER"), "TWIG_LITERAL_STRING_INTERPOLATION") # 0) } }
HtmlQuotes(T, P, cfg, R) ==
  UNION { Quoted(T, n, cfg.htmlQuotation, "HTML_STRING_INNER", FALSE) : n \in { n \in 1..Len(T) : T[n].k = "HTML_STRING" /\ Seen(P, n, R) } }

------------------------------------------------------------------------------
(* operators, keywords, keys                                                *)
(* a word must not stick to its neighbours                                  *)
Apart(T, m) == IF m = 0 THEN "" ELSE IF T[m].k \in Trivia THEN "" ELSE " "
Logic(T, P, R, kind, word) ==
  { LET o == Operator(T, b) IN Finding("error", Range(T, o), {}, {<<T[o].s, T[o].e, Apart(T, T[o].pt) \o word \o Apart(T, T[o].nt)>>})
    : b \in { b \in 1..Len(T) : T[b].k = "TWIG_BINARY_EXPRESSION" /\ Seen(P, b, R) /\ Operator(T, b) # 0 /\ T[Operator(T, b)].k = kind } }
(* a === b; the replacement binds tighter than the operator: none is given  *)
(* if it would take the left operand apart                                  *)
RECURSIVE Negation(_, _)
Negation(T, e) == LET u == Child(T, e, "TWIG_UNARY_EXPRESSION") IN u # 0 /\ (Child(T, u, "TK_NOT") # 0 \/ LET o == Child(T, u, "TWIG_EXPRESSION") IN o # 0 /\ Negation(T, o))
Same(T, P, R, kind, word) ==
  { LET o == Operator(T, b)  r == Behind(T, b)  l == Before(T, b) IN
    Finding("error", Range(T, o), {},
            IF r = 0 \/ l = 0 THEN {} ELSE IF T[l].k # "TWIG_EXPRESSION" THEN {} ELSE IF Negation(T, l) THEN {}
            ELSE {<<T[o].s, T[r].e, Apart(T, T[o].pt) \o word \o "(" \o TrimmedText(T, r) \o ")">>})
    : b \in { b \in 1..Len(T) : T[b].k = "TWIG_BINARY_EXPRESSION" /\ Seen(P, b, R) /\ Operator(T, b) # 0 /\ T[Operator(T, b)].k = kind } }
Extends(T, P, R) ==
  { LET w == Child(T, n, "TK_EXTENDS") IN Finding("warning", Range(T, n), {}, {<<T[w].s, T[w].e, "sw_extends">>})
    : n \in { n \in 1..Len(T) : T[n].k = "TWIG_EXTENDS" /\ Seen(P, n, R) /\ Child(T, n, "TK_EXTENDS") # 0 } }
PlainFilter(T, f) == LET ops == Children(T, f, "TWIG_OPERAND") IN IF Len(ops) < 2 THEN 0 ELSE LiteralName(T, ops[2])
Piped(T, f) == LET ops == Children(T, f, "TWIG_OPERAND") IN IF Len(ops) = 0 THEN 0 ELSE Child(T, ops[1], "TWIG_FILTER")
RECURSIVE Encoded(_, _)
Encoded(T, f) == f # 0 /\ ((PlainFilter(T, f) # 0 /\ T[PlainFilter(T, f)].t = "json_encode") \/ Encoded(T, Piped(T, f)))
RawJson(T, P, R) ==
  { LET n == PlainFilter(T, f)
        args == Child(T, Children(T, f, "TWIG_OPERAND")[2], "TWIG_ARGUMENTS")
    IN Finding("warning", Range(T, n), {}, {<<T[n].s, IF args = 0 THEN T[n].e ELSE T[args].e, "escape('js')">>})
    : f \in { f \in 1..Len(T) : T[f].k = "TWIG_FILTER" /\ Seen(P, f, R) /\ PlainFilter(T, f) # 0 /\ T[PlainFilter(T, f)].t = "raw" /\ Encoded(T, Piped(T, f)) } }
HashKeys(T, P, R) ==
  LET str(k) == Child(T, k, "TWIG_LITERAL_STRING")
      inner(k) == Child(T, str(k), "TWIG_LITERAL_STRING_INNER")
      quotes(k) == SelectSeq(T[str(k)].c, LAMBDA m : IsToken(T, m) /\ T[m].k \notin Trivia)
  IN { Finding("help", Trimmed(T, str(k)), {}, { <<T[q].s, T[q].e, "">> : q \in { quotes(k)[i] : i \in 1..Len(quotes(k)) } })
       : k \in { k \in 1..Len(T) : /\ T[k].k = "TWIG_LITERAL_HASH_KEY" /\ Seen(P, k, R) /\ str(k) # 0 /\ inner(k) # 0
                                   /\ Len(T[inner(k)].c) = 1 /\ IsToken(T, inner(k) + 1) /\ TwigName(T[inner(k) + 1].t) } }
MisplacedFileIgnore(T, P, R) ==
  { Finding("error", Range(T, n), {}, {})
    : n \in { n \in 1..Len(T) : T[n].k = "LUDTWIG_DIRECTIVE_FILE_IGNORE" /\ Seen(P, n, R) /\ T[T[n].p].k # "ROOT" } }

------------------------------------------------------------------------------
(* What rule R reports                                                      *)
NameRules == {"twig-block-name-snake-case", "html-attribute-name-kebab-case"}
Expected(T, P, cfg, R) ==
  CASE R = "ludtwig-ignore-file-not-on-top" -> MisplacedFileIgnore(T, P, R)
    [] R = "whitespace-between-line-breaks" -> EmptyLines(T, P, cfg, R)
    [] R = "line-ending" -> LineEndings(T, P, cfg, R)
    [] R = "indentation" -> Indentation(T, P, cfg, R)
    [] R = "twig-block-line-breaks" -> BlockLineBreaks(T, P, cfg, R, FALSE)
    [] R = "twig-block-name-snake-case" -> { Finding("help", Range(T, n), {}, {}) : n \in BlockNames(T, P, R) }
    [] R = "html-attribute-name-kebab-case" -> { Finding("help", Range(T, n), {}, {}) : n \in AttributeNames(T, P, R) }
    [] R = "twig-logic-and" -> Logic(T, P, R, "TK_DOUBLE_AMPERSAND", "and")
    [] R = "twig-logic-or" -> Logic(T, P, R, "TK_DOUBLE_PIPE", "or")
    [] R = "twig-string-quotation" -> TwigQuotes(T, P, cfg, R)
    [] R = "html-string-quotation" -> HtmlQuotes(T, P, cfg, R)
    [] R = "twig-hash-key-no-quotes" -> HashKeys(T, P, R)
    [] R = "twig-prefer-shopware-extends" -> Extends(T, P, R)
    [] R = "twig-use-is-same-as" -> Same(T, P, R, "TK_TRIPLE_EQUAL", "is same as")
    [] R = "twig-use-is-not-same-as" -> Same(T, P, R, "TK_EXCLAMATION_MARK_DOUBLE_EQUALS", "is not same as")
    [] R = "twig-block-duplicate" -> BlockDuplicates(T, P, R)
    [] R = "twig-json-encode-escape-js" -> RawJson(T, P, R)
    [] R = "html-duplicate-id" -> DuplicateIds(T, P, R)
    [] R = "twig-variable-definition-naming" -> VariableNames(T, P, R)
    [] R = "twig-valid-filter" -> ValidFilters(T, P, cfg, R)
    [] R = "twig-valid-test" -> ValidTests(T, P, cfg, R)
    [] R = "twig-valid-function" -> ValidFunctions(T, P, cfg, R)

------------------------------------------------------------------------------
(* Comparing a list of reported findings with them                          *)
(* every finding points at one place                                        *)
Prim(r) == IF Len(r.prim) = 1 THEN r.prim[1] ELSE <<-1, -1>>
AsFinding(r) == Finding(r.sev, Prim(r), { r.sec[i] : i \in 1..Len(r.sec) }, { r.sug[i] : i \in 1..Len(r.sug) })
TextAt(T, r) == LET n == { n \in 1..Len(T) : IsToken(T, n) /\ T[n].s = r[1] /\ T[n].e = r[2] } IN IF n = {} THEN "" ELSE T[CHOOSE x \in n : TRUE].t
(* a suggested name is a name of the convention with the same letters, and  *)
(* every place that has to agree with it is renamed with it                 *)
GoodRename(T, R, r) ==
  LET sugs == { r.sug[i] : i \in 1..Len(r.sug) }
      here == { u \in sugs : u[1] = Prim(r)[1] /\ u[2] = Prim(r)[2] }
  IN \/ sugs = {}
     \/ /\ Cardinality(here) = 1 /\ Cardinality(sugs) = Len(r.sug)
        /\ LET new == (CHOOSE u \in here : TRUE)[3] IN
           /\ IF R = "twig-block-name-snake-case" THEN SnakeCase(new) ELSE KebabCase(new)
           /\ Essence(new) = Essence(TextAt(T, Prim(r)))
           /\ \A u \in sugs : u[3] = new /\ TextAt(T, <<u[1], u[2]>>) = TextAt(T, Prim(r))
Reported(res, R) == SelectSeq(res, LAMBDA r : r.rule = R)
Bare(r) == [r EXCEPT !.sug = <<>>]
(* findings that may be missing in a malformed template                     *)
Optional(T, P, cfg, R, errors) == IF errors > 0 /\ R = "twig-block-line-breaks" THEN BlockLineBreaks(T, P, cfg, R, TRUE) ELSE {}
(* "" or what is wrong with what rule R reported                            *)
Difference(T, P, cfg, R, res, errors) ==
  LET real == Reported(res, R)
      shown == IF R \in NameRules THEN { AsFinding(Bare(real[i])) : i \in 1..Len(real) } ELSE { AsFinding(real[i]) : i \in 1..Len(real) }
      open == Optional(T, P, cfg, R, errors)
      want == Expected(T, P, cfg, R) \cup (IF errors = 0 /\ R = "twig-block-line-breaks" THEN BlockLineBreaks(T, P, cfg, R, TRUE) ELSE {})
  IN IF shown \ (want \cup open) # {} THEN [why |-> "a finding that should not be there", finding |-> CHOOSE f \in shown \ (want \cup open) : TRUE, other |-> want \ shown]
     ELSE IF want \ shown # {} THEN [why |-> "a finding is missing", finding |-> CHOOSE f \in want \ shown : TRUE, other |-> {}]
     ELSE IF Cardinality(shown) # Len(real) THEN [why |-> "a finding is reported more than once", finding |-> AsFinding(real[1]), other |-> {}]
     ELSE IF R \in NameRules /\ \E i \in 1..Len(real) : ~GoodRename(T, R, real[i])
          THEN [why |-> "a suggested name is not a good one", finding |-> AsFinding(CHOOSE r \in { real[i] : i \in 1..Len(real) } : ~GoodRename(T, R, r)), other |-> {}]
     ELSE [why |-> "", finding |-> 0, other |-> {}]
=============================================================================
