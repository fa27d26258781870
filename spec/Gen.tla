--------------------------------- MODULE Gen ---------------------------------
(* Sampled derivations of Grammar: every behaviour derives one template,    *)
(* its choices fixed by the seed.  The final step prints the template and   *)
(* the tree it spells out as one JSON line.                                 *)
EXTENDS Grammar, Layout, Rand, Broken, Json, IOUtils

Seed  == atoi(IOEnv.GEN_SEED)
First == atoi(IOEnv.GEN_FIRST)
Last  == atoi(IOEnv.GEN_LAST)
Start == IOEnv.GEN_START
Depth == atoi(IOEnv.GEN_DEPTH)
Fuel  == atoi(IOEnv.GEN_FUEL)
Style == atoi(IOEnv.GEN_STYLE)          \* 0: any
Drops == atoi(IOEnv.GEN_DROPS)          \* how many damaged versions to print

Marks == atoi(IOEnv.GEN_MARKS)          \* how many versions with a malformed element to print

(* GEN_START = "Pairs": every statement in every place it can stand at      *)
(* (id = 1 .. 6 * Stmts * 3), and then inside of every other statement there.  *)
Places == << "el", "tag", "at", "dq", "sq", "raw" >>
Stmts == Count("Stmt")
StmtPairs == 6 * Stmts * 3
Ctx(p) == IF p = "tag" THEN "el" ELSE p
Word(p) == IF p = "el" \/ p = "tag" THEN Nd("HTML_TEXT", <<W("hello")>>) ELSE IF p = "at" THEN Nd("HTML_ATTRIBUTE", <<W("id")>>) ELSE <<W("hello")>>
Direct(i, d, c) == IF i \in 2..6 THEN BlockStmt(BlockNames[i], i % 2 = 1, d, c) ELSE Stmt(i, d, c)
(* s with its x-th body (or the last one) filled                            *)
FilledAt(s, what, x) ==
  LET at == SelectSeq([j \in 1..Len(s) |-> j], LAMBDA j : s[j][1] = "n" /\ s[j][2] = "Body") IN
  IF at = <<>> THEN s
  ELSE LET j == at[IF x > Len(at) THEN Len(at) ELSE x]
           raw == s[j][4] = "raw"
       IN SubSeq(s, 1, j - 1) \o (IF raw THEN Nd("HTML_RAW_TEXT", what) ELSE what) \o SubSeq(s, j + 1, Len(s))
Filled(s, what) == FilledAt(s, what, 1)
InPlace(p, what) ==
  LET start(attrs) == Nd("HTML_STARTING_TAG", <<T("TK_LESS_THAN", "<"), G("TK_WORD", IF p = "raw" THEN "script" ELSE "div")>> \o Nd("HTML_ATTRIBUTE_LIST", attrs) \o <<R("TK_GREATER_THAN", ">")>>)
      end == Nd("HTML_ENDING_TAG", <<T("TK_LESS_THAN_SLASH", "</"), G("TK_WORD", IF p = "raw" THEN "script" ELSE "div"), R("TK_GREATER_THAN", ">")>>)
      value(q, k) == Nd("HTML_ATTRIBUTE", <<W("class"), T("TK_EQUAL", "=")>> \o Nd("HTML_STRING", <<T(k, q)>> \o Nd("HTML_STRING_INNER", what) \o <<R(k, q)>>))
  IN CASE p = "el" -> what
       [] p = "tag" -> Nd("HTML_TAG", start(<<>>) \o Nd("BODY", what) \o end)
       [] p = "at" -> Nd("HTML_TAG", start(what) \o Nd("BODY", <<>>) \o end)
       [] p = "dq" -> Nd("HTML_TAG", start(value("\"", DQ)) \o Nd("BODY", <<>>) \o end)
       [] p = "sq" -> Nd("HTML_TAG", start(value("'", SQ)) \o Nd("BODY", <<>>) \o end)
       [] p = "raw" -> Nd("HTML_TAG", start(<<>>) \o Nd("BODY", Nd("HTML_RAW_TEXT", what)) \o end)
PairDoc(n) ==
  LET k == n - 1
      p == Places[(k % 6) + 1]
      i == ((k \div 6) % Stmts) + 1
      m == k \div (6 * Stmts)
      around(s) == Word(p) \o s \o (IF p \in {"dq", "sq", "raw"} THEN <<W("world")>> ELSE <<>>)
  IN IF k < StmtPairs THEN InPlace(p, around(Direct(i, 2 + m, Ctx(p))))
     ELSE LET j == ((m - 3) % Stmts) + 1
          IN InPlace(p, around(Filled(Direct(j, 2 + (k % 3), Ctx(p)), around(Direct(i, 1 + (k % 2), Ctx(p))))))

(* GEN_START = "Around": places for malformed elements, first some small    *)
(* ones, then one within (or before) every statement in every place.        *)
M(p) == << <<"m", p>> >>
ElTag(w, what) == Nd("HTML_TAG", Nd("HTML_STARTING_TAG", <<T("TK_LESS_THAN", "<"), G("TK_WORD", w)>> \o Nd("HTML_ATTRIBUTE_LIST", <<>>) \o <<R("TK_GREATER_THAN", ">")>>)
                    \o Nd("BODY", what) \o Nd("HTML_ENDING_TAG", <<R("TK_LESS_THAN_SLASH", "</"), GR("TK_WORD", w), R("TK_GREATER_THAN", ">")>>))
Small ==
  LET var == S("Var", 1, "el") IN
  << ElTag("p", M("el")) \o ElTag("b", var),
     M("el") \o ElTag("b", var) \o var,
     var \o M("el") \o var \o Word("el"),
     ElTag("p", Word("el") \o M("el")) \o ElTag("b", <<>>),
     ElTag("p", ElTag("b", var) \o M("el") \o S("Comment", 1, "el")) \o var,
     Word("el") \o M("el"),
     InPlace("at", M("at")) \o var,
     InPlace("at", Word("at") \o M("at") \o Word("at")) \o ElTag("b", var),
     InPlace("dq", M("dq")) \o var,
     InPlace("dq", Word("dq") \o M("dq") \o Word("dq")) \o ElTag("b", var) >>
AroundDocs == Len(Small) + 8 * Stmts
AroundDoc(n) ==
  IF n <= Len(Small) THEN Small[n]
  ELSE LET k == n - Len(Small) - 1
           p == <<"el", "tag", "at", "dq">>[(k % 4) + 1]
           c == Ctx(p)
           s == Direct(((k \div 4) % Stmts) + 1, 2, c)
           f == FilledAt(s, M(c), (k \div (4 * Stmts)) + 1)
       IN InPlace(p, (IF f = s THEN M(c) \o Word(p) \o s ELSE f) \o Word(p)) \o S("Var", 1, "el")

(* GEN_START = "Forms": every construct with every combination of its       *)
(* optional parts.  The choices of the nonterminals in Options are the      *)
(* digits of a number (id \div number of constructs), the others are the    *)
(* smallest ones.                                                           *)
FormStarts ==
  LET some(n, from, to) == [k \in 1..(to - from + 1) |-> <<n, k + from - 1>>]
  IN some("Stmt", 1, 2) \o some("Stmt", 7, 7) \o some("Stmt", 12, Stmts) \o some("Html", 1, 10) \o some("Comment", 1, 6)
     \o some("Opd", 6, 14) \o some("Prim", 4, 11) \o some("Expr", 7, 8) \o some("Text", 1, 2) \o some("TestOpd", 1, Count("TestOpd"))
Options == {"With", "Only", "IgnoreMissing", "CacheTtl", "CacheTags", "Overrides", "Props", "Args", "Arg", "ArrItems", "HashItems", "HashPair", "HashKey",
            "ElseIfs", "AttrList", "Attr", "AttrValue", "EscStrategy", "WithVars", "ComponentWith", "IconStyle", "ThumbnailsWith", "ReturnValue", "ShopwareName",
            "Applied", "Range", "Str", "StrParts", "RuleList", "RuleTail", "PlainStr", "RawItems", "RawItem", "CommentWords", "TextTail", "StrItems",
            "BlockName", "Macro", "Bool"}
FormDoc(n) ==
  LET f == FormStarts[((n - 1) % Len(FormStarts)) + 1]
      what == IF f[1] = "TestOpd" THEN Wrap(Group(<< <<"opd", Name("VarName")>>, <<"bin", "TK_IS", "is">>, <<"opd", Prod(f[1], f[2], 6, "")>> >>))
              ELSE Prod(f[1], f[2], 6, "el")
  IN IF f[1] \in {"Stmt", "Html", "Comment", "Text"} THEN what
     ELSE Nd("TWIG_VAR", S("VO", 0, "") \o (IF f[1] \in {"Opd", "Prim"} THEN Wrap(what) ELSE what) \o S("VC", 0, ""))

VARIABLES id, spots, stack, rows, depth, segs, prev, rng, style, fuel, code, done
vars == <<id, spots, stack, rows, depth, segs, prev, rng, style, fuel, code, done>>

Init ==
  /\ id \in First..Last
  /\ stack = << <<"o", "ROOT">> >> \o (IF Start = "Pairs" THEN PairDoc(id) ELSE IF Start = "Forms" THEN FormDoc(id) ELSE IF Start = "Around" THEN AroundDoc(id) ELSE << <<"n", Start, Depth, "el">> >>) \o << <<"c">> >>
  /\ spots = <<>>
  /\ rows = <<>> /\ depth = 0 /\ segs = <<>> /\ prev = ""
  /\ rng = RandNext(RandNext(RandInit(Seed, id)))
  /\ style = IF Style > 0 THEN Style ELSE ((id + Seed) % Styles) + 1
  /\ fuel = Fuel
  /\ code = (id - 1) \div Len(FormStarts)
  /\ done = FALSE

------------------------------------------------------------------------------
RECURSIVE ChainCodes(_, _, _, _)
(* the items of a random chain: n operands to go, last operator             *)
ChainCodes(n, last, acc, r) ==
  LET r1 == RandNext(r)  r2 == RandNext(r1)  r3 == RandNext(r2)
      test == last # 0 /\ BinOps[last][1] \in {"TK_IS", "TK_IS_NOT"}
      here == IF test THEN << <<"test">> >>
              ELSE IF Rand(r, 8) = 1 THEN << <<"pre", Rand(r1, Len(PreOps))>>, <<"opd">> >>
              ELSE << <<"opd">> >>
      op   == LET o == Rand(r2, Len(BinOps))
              IN IF test /\ BinLevel(BinOps[o][1]) > 11 THEN 3 ELSE o
  IN IF n <= 1 THEN <<acc \o here, r3>>
     ELSE ChainCodes(n - 1, op, acc \o here \o << <<"bin", op>> >>, r3)

Width(r, d) == LET k == Rand(r, 10) IN IF d <= 0 THEN 1 ELSE IF k <= 6 THEN 1 ELSE IF k <= 8 THEN 2 ELSE IF k = 9 THEN 3 ELSE 4

(* Replace the nonterminal on top; afterwards write everything up to the    *)
(* next one.                                                                *)
Expanded(sym, r) ==
  IF Start = "Forms" THEN
    IF sym[2] = "Chain" THEN <<Wrap(S("Opd", sym[3], "")), RandNext(r), code>>
    ELSE IF sym[2] \in Options THEN <<Prod(sym[2], (code % Counts(sym[2])) + 1, sym[3], sym[4]), RandNext(r), code \div Counts(sym[2])>>
    ELSE <<Prod(sym[2], IF Terminal(sym[2]) THEN Rand(r, Counts(sym[2])) ELSE 1, sym[3], sym[4]), RandNext(r), code>>
  ELSE IF sym[2] = "Chain" THEN
    LET cc == ChainCodes(Width(r, IF fuel > 0 THEN sym[3] ELSE 0), 0, <<>>, RandNext(r)) IN <<ChainSyms(cc[1], sym[3]), cc[2], code>>
  ELSE
    LET free == Terminal(sym[2]) \/ (sym[3] > 0 /\ fuel > 0)
        i    == IF free THEN Rand(r, Counts(sym[2])) ELSE 1
    IN <<Prod(sym[2], i, sym[3], sym[4]), RandNext(r), code>>

Need(t) == ~t[4] /\ prev # "" /\ Merges(prev, t[3])

Emit ==
  LET top == Head(stack) IN
  CASE top[1] = "o" ->
         /\ rows' = Append(rows, <<depth, top[2], "">>)
         /\ depth' = depth + 1
         /\ stack' = Tail(stack)
         /\ UNCHANGED <<segs, prev, rng, fuel, code, spots>>
    [] top[1] = "c" ->
         /\ depth' = depth - 1
         /\ stack' = Tail(stack)
         /\ UNCHANGED <<rows, segs, prev, rng, fuel, code, spots>>
    [] top[1] = "m" ->
         /\ spots' = Append(spots, <<Len(rows), Len(segs), depth, top[2]>>)
         /\ stack' = Tail(stack)
         /\ UNCHANGED <<rows, depth, segs, prev, rng, fuel, code>>
    [] top[1] = "t" ->
         LET gap == IF top[4] \/ prev = "" THEN ""
                    ELSE LET g == Gap(style, Rand(rng, 60)) IN IF g = "" /\ Merges(prev, top[3]) THEN " " ELSE g
         IN /\ rows' = Append(rows, <<depth, top[2], top[3]>>)
            /\ segs' = Append(segs, <<gap, top[3], top[5]>>)
            /\ prev' = top[3]
            /\ rng' = RandNext(rng)
            /\ stack' = Tail(stack)
            /\ UNCHANGED <<depth, fuel, code, spots>>
    [] top[1] = "n" ->
         LET e == Expanded(top, rng)
         IN /\ stack' = e[1] \o Tail(stack)
            /\ rng' = e[2]
            /\ fuel' = fuel - 1
            /\ code' = e[3]
            \* here starts a (rest of a) list of elements
            /\ spots' = IF Marks > 0 /\ Start # "Around" /\ <<top[2], top[4]>> \in {<<"Items", "el">>, <<"AttrList", "at">>, <<"StrItems", "dq">>}
                         THEN Append(spots, <<Len(rows), Len(segs), depth, top[4]>>) ELSE spots
            /\ UNCHANGED <<rows, depth, segs, prev>>

Step == stack # <<>> /\ Emit /\ UNCHANGED <<id, style, done>>

RECURSIVE Join(_, _, _, _)
(* the text of segments lo..hi, with the token at drop left out             *)
Join(s, lo, hi, drop) ==
  IF lo > hi THEN ""
  ELSE IF lo = hi THEN (IF lo = drop THEN s[lo][1] \o (IF s[lo][1] = "" THEN " " ELSE "") ELSE s[lo][1] \o s[lo][2])
  ELSE LET m == (lo + hi) \div 2 IN Join(s, lo, m, drop) \o Join(s, m + 1, hi, drop)

(* a comment that is not closed runs up to the next end of a comment, if    *)
(* there is one: only the last one is missed                                *)
CommentEnds == { {"#}", "-#}", "~#}"}, {"-->"} }
Missed(j) ==
  /\ segs[j][3]
  /\ \A e \in CommentEnds : segs[j][2] \in e => \A k \in (j + 1)..Len(segs) : segs[k][2] \notin e
Required == SelectSeq([j \in 1..Len(segs) |-> j], Missed)
Dropped(k) ==
  LET req == Required
      at  == req[(IF Start = "Forms" THEN k ELSE (k * 7919 + rng[1]) % Len(req)) + (IF Start = "Forms" THEN 0 ELSE 1)]
  IN [text |-> Join(segs, 1, Len(segs), at), tok |-> segs[at][2]]

(* the template with a malformed element at one of the spots                *)
Marked(k) ==
  LET around == Start = "Around"
      sp == IF around THEN spots[1] ELSE spots[((k * 6271 + rng[2]) % Len(spots)) + 1]
      r  == IF around THEN (k - 1) \div 2 + (IF id <= Len(Small) THEN 0 ELSE id * 89) ELSE k * 31 + id * 17 + rng[3]
      fit == Fitting(sp[4])
      b  == Spelled(fit[(r % Len(fit)) + 1], ((IF around THEN r + id ELSE r \div 97) % 13) % 7)
      nl == IF style \in {4} THEN "\r\n" ELSE IF style = 2 THEN " " ELSE "\n"
      \* a tag may follow directly
      tight == (IF around THEN k % 2 = 0 ELSE r % 3 = 0) /\ sp[2] < Len(segs) /\ SubSeq(segs[sp[2] + 1][2], 1, 1) \in {"<", "{"}
  IN [text |-> Join(segs, 1, sp[2], 0) \o nl \o b \o (IF tight THEN "" ELSE nl) \o Join(segs, sp[2] + 1, Len(segs), 0),
      at |-> sp[1], depth |-> sp[3], place |-> sp[4], element |-> b]
MarkCount == IF Start = "Around" /\ id <= Len(Small) THEN 2 * Len(Fitting(spots[1][4])) ELSE Marks

Finish ==
  /\ stack = <<>> /\ ~done
  /\ done' = TRUE
  \* digits left over: a smaller number has the same choices
  /\ IF Start = "Forms" /\ code > 0 THEN TRUE ELSE PrintT("GEN " \o ToJson([id |-> id, text |-> Join(segs, 1, Len(segs), 0), rows |-> rows,
                     drops |-> IF Len(Required) = 0 THEN <<>> ELSE [k \in 1..(IF Start = "Forms" /\ Drops > 0 THEN Len(Required) ELSE Drops) |-> Dropped(k)],
                     marks |-> IF Len(spots) = 0 THEN <<>> ELSE [k \in 1..MarkCount |-> Marked(k)]]))
  /\ UNCHANGED <<id, spots, stack, rows, depth, segs, prev, rng, style, fuel, code>>

Next == Step \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
