------------------------------- MODULE ExprGen -------------------------------
(* Every short chain of operators, written down with the tree it must get.  *)
(* Family 1: all pairs of binary operators; 2: all triples of levels; 3:    *)
(* prefix operators in front of the operands of all pairs of levels;        *)
(* 4: conditionals around and inside of every operator; 5: the groups of    *)
(* family 2 written with redundant parentheses; 6: postfix operands and     *)
(* prefix operators with every binary operator; 7 (sampled): long chains.   *)
EXTENDS Grammar, Layout, Rand, Json, IOUtils

Family == atoi(IOEnv.GEN_FAMILY)
Seed   == atoi(IOEnv.GEN_SEED)
Amount == atoi(IOEnv.GEN_AMOUNT)

VARIABLES code, done
vars == <<code, done>>

Reps == {1, 3, 5, 6, 7, 8, 22, 23, 25, 26, 30, 31, 32}     \* one operator of every level
Pres == 0..Len(PreOps)
Code ==
  CASE Family = 1 -> (1..Len(BinOps)) \X (1..Len(BinOps))
    [] Family \in {2, 5} -> Reps \X Reps \X Reps
    [] Family = 3 -> LET reps == IF Amount > 0 THEN Reps ELSE {1, 8, 23, 25, 26, 30, 31} IN Pres \X reps \X Pres \X reps \X Pres
    [] Family = 4 -> (1..8) \X (1..Len(BinOps)) \X Reps
    [] Family = 6 -> (1..Len(BinOps)) \X Pres \X (1..10) \X (IF Amount > 0 THEN 1..10 ELSE {1, 4, 7})
    [] Family = 7 -> 1..Amount

Init == code \in Code /\ done = FALSE

------------------------------------------------------------------------------
Letters == "abcdefghijkl"
NameN(n) == NameOf(SubSeq(Letters, n, n))
Args(s) == Nd("TWIG_ARGUMENTS", <<T("TK_OPEN_PARENTHESIS", "(")>> \o s \o <<T("TK_CLOSE_PARENTHESIS", ")")>>)
FuncOf(s) == Nd("TWIG_FUNCTION_CALL", Nd("TWIG_OPERAND", s) \o Args(Wrap(NameOf("x"))))
(* operands in all their postfix forms                                      *)
OpdN(k, n) ==
  CASE k = 1 -> NameN(n)
    [] k = 2 -> Access(NameN(n), NameOf("y"))
    [] k = 3 -> Pipe(NameN(n), NameOf("f"), <<>>)
    [] k = 4 -> FuncOf(NameN(n))
    [] k = 5 -> Lookup(NameN(n), "TWIG_INDEX", Wrap(Nd("TWIG_LITERAL_NUMBER", <<T("TK_NUMBER", "0")>>)))
    [] k = 6 -> Nd("TWIG_PARENTHESES_EXPRESSION", <<T("TK_OPEN_PARENTHESIS", "(")>> \o Wrap(NameN(n)) \o <<T("TK_CLOSE_PARENTHESIS", ")")>>)
    [] k = 7 -> Pipe(Access(NameN(n), NameOf("y")), NameOf("f"), Args(Wrap(NameOf("x"))))
    [] k = 8 -> FuncOf(Access(NameN(n), NameOf("y")))
    [] k = 9 -> Nd("TWIG_LITERAL_STRING", <<T("TK_SINGLE_QUOTES", "'")>> \o Nd("TWIG_LITERAL_STRING_INNER", <<W("s")>>) \o <<T("TK_SINGLE_QUOTES", "'")>>)
    [] k = 10 -> Pipe(Nd("TWIG_PARENTHESES_EXPRESSION", <<T("TK_OPEN_PARENTHESIS", "(")>> \o Wrap(NameN(n)) \o <<T("TK_CLOSE_PARENTHESIS", ")")>>), NameOf("f"), <<>>)
IsTest(b) == b # 0 /\ BinOps[b][1] \in {"TK_IS", "TK_IS_NOT"}
TestWord == NameOf("defined")
(* operand number n, behind operator b (0: none)                            *)
Opd1(b, k, n) == <<"opd", IF IsTest(b) THEN TestWord ELSE OpdN(k, n)>>
Bin(b) == <<"bin", BinOps[b][1], BinOps[b][2]>>
PreN(p) == IF p = 0 THEN <<>> ELSE << <<"pre", PreOps[p][1], PreOps[p][2]>> >>
(* nothing that binds tighter can follow a test, and a test has no prefix   *)
FollowsTest(b, c) == IsTest(b) => BinLevel(BinOps[c][1]) <= 12

Chain1(b, c) == << Opd1(0, 1, 1), Bin(b), Opd1(b, 1, 2), Bin(c), Opd1(c, 1, 3) >>
Chain2(a, b, c) == << Opd1(0, 1, 1), Bin(a), Opd1(a, 1, 2), Bin(b), Opd1(b, 1, 3), Bin(c), Opd1(c, 1, 4) >>

(* the tree of a chain with every group in parentheses                      *)
Parens(s) == Nd("TWIG_PARENTHESES_EXPRESSION", <<T("TK_OPEN_PARENTHESIS", "(")>> \o Wrap(s) \o <<T("TK_CLOSE_PARENTHESIS", ")")>>)
RECURSIVE Bracketed(_)
Bracketed(s) ==
  IF Len(s) = 1 THEN s[1][2]
  ELSE LET m == Main(s)
           l == SubSeq(s, 1, m - 1)
           r == SubSeq(s, m + 1, Len(s))
           side(x) == IF Len(x) = 1 THEN x[1][2] ELSE Parens(Bracketed(x))
       IN Node("TWIG_BINARY_EXPRESSION", Wrap(side(l)) \o <<Tok(s[m][2], s[m][3])>> \o Wrap(side(r)))

Cond(a, b, c) == Wrap(Nd("TWIG_CONDITIONAL_EXPRESSION", a \o <<T("TK_QUESTION_MARK", "?")>> \o b \o <<T("TK_COLON", ":")>> \o c))
Elvis(a, c) == Wrap(Nd("TWIG_CONDITIONAL_EXPRESSION", a \o <<T("TK_QUESTION_MARK", "?"), T("TK_COLON", ":")>> \o c))
Simple(n) == Wrap(NameN(n))
Pair(b, n) == Wrap(Group(<< Opd1(0, 1, n), Bin(b), Opd1(b, 1, n + 1) >>))
Then(a, c) == Wrap(Nd("TWIG_CONDITIONAL_EXPRESSION", a \o <<T("TK_QUESTION_MARK", "?")>> \o c))
CondForm(i, b, c) ==
  CASE i = 1 -> Cond(Pair(b, 1), Simple(3), Simple(4))
    [] i = 2 -> Cond(Simple(1), Pair(b, 2), Simple(4))
    [] i = 3 -> Cond(Simple(1), Simple(2), Pair(b, 3))
    [] i = 4 -> Elvis(Pair(b, 1), Pair(c, 3))
    [] i = 5 -> Cond(Pair(c, 1), Pair(b, 3), Pair(c, 5))
    [] i = 6 -> Cond(Pair(b, 1), Cond(Simple(3), Pair(c, 4), Simple(6)), Simple(7))
    [] i = 7 -> Cond(Pair(b, 1), Simple(3), Cond(Pair(c, 4), Simple(6), Simple(7)))
    [] i = 8 -> Elvis(Simple(1), Elvis(Pair(b, 2), Pair(c, 4)))

RECURSIVE LongChain(_, _, _, _)
LongChain(n, b, acc, r) ==
  LET r1 == RandNext(r) r2 == RandNext(r1) r3 == RandNext(r2) r4 == RandNext(r3)
      p  == IF IsTest(b) \/ Rand(r, 3) > 1 THEN 0 ELSE Rand(r1, 4)
      here == acc \o PreN(p) \o << Opd1(b, Rand(r2, 10), Rand(r3, 12)) >>
      c0 == Rand(r4, Len(BinOps))
      c  == IF IsTest(b) /\ ~FollowsTest(b, c0) THEN 1 ELSE c0
  IN IF n = 0 THEN here ELSE LongChain(n - 1, c, here \o <<Bin(c)>>, RandNext(r4))

Possible ==
  CASE Family = 1 -> FollowsTest(code[1], code[2])
    [] Family \in {2, 5} -> FollowsTest(code[1], code[2]) /\ FollowsTest(code[2], code[3])
    [] Family = 3 -> FollowsTest(code[2], code[4]) /\ (IsTest(code[2]) => code[3] = 0) /\ (IsTest(code[4]) => code[5] = 0)
    [] Family = 6 -> IsTest(code[1]) => code[4] = 1
    [] OTHER -> TRUE
Expression ==
  CASE Family = 1 -> Wrap(Group(Chain1(code[1], code[2])))
    [] Family = 2 -> Wrap(Group(Chain2(code[1], code[2], code[3])))
    [] Family = 3 -> Wrap(Group(PreN(code[1]) \o <<Opd1(0, 1, 1), Bin(code[2])>> \o PreN(code[3]) \o <<Opd1(code[2], 1, 2), Bin(code[4])>> \o PreN(code[5]) \o <<Opd1(code[4], 1, 3)>>))
    [] Family = 4 -> CondForm(code[1], code[2], code[3])
    [] Family = 5 -> Wrap(Bracketed(Chain2(code[1], code[2], code[3])))
    [] Family = 6 -> Wrap(Group(PreN(code[2]) \o <<Opd1(0, code[3], 1), Bin(code[1]), Opd1(code[1], code[4], 2)>>))
    [] Family = 7 -> LET r == RandNext(RandNext(RandInit(Seed, code))) IN Wrap(Group(LongChain(3 + Rand(r, 5), 0, <<>>, r)))

Symbols == Nd("ROOT", Nd("TWIG_VAR", <<T("TK_OPEN_CURLY_CURLY", "{{")>> \o Expression \o <<T("TK_CLOSE_CURLY_CURLY", "}}")>>))

RECURSIVE Spell(_, _, _, _, _, _)
(* <<rows, text>>                                                           *)
Spell(s, k, depth, rows, text, prev) ==
  IF k > Len(s) THEN <<rows, text>>
  ELSE IF s[k][1] = "o" THEN Spell(s, k + 1, depth + 1, Append(rows, <<depth, s[k][2], "">>), text, prev)
  ELSE IF s[k][1] = "c" THEN Spell(s, k + 1, depth - 1, rows, text, prev)
  ELSE LET gap == IF prev = "" THEN "" ELSE IF Len(rows) % 3 = 0 /\ ~Merges(prev, s[k][3]) /\ prev # "{{" THEN "" ELSE " "
       IN Spell(s, k + 1, depth, Append(rows, <<depth, s[k][2], s[k][3]>>), text \o gap \o s[k][3], s[k][3])

Emit ==
  /\ ~done /\ done' = TRUE /\ UNCHANGED code
  /\ IF Possible THEN LET x == Spell(Symbols, 1, 0, <<>>, "", "") IN PrintT("GEN " \o ToJson([text |-> x[2], rows |-> x[1]]))
     ELSE TRUE
Next == Emit
Spec == Init /\ [][Next]_vars
=============================================================================
