-------------------------------- MODULE Expr --------------------------------
(* How Twig groups a flat chain of operands and operators.                  *)
(*                                                                          *)
(* A chain is a sequence of items                                           *)
(*   <<"opd", symbols>>          an operand (its own derivation symbols)    *)
(*   <<"pre", kind, text>>       a prefix operator                          *)
(*   <<"bin", kind, text>>       a binary operator                          *)
(* The grouping is defined declaratively (Main / Group below): no parsing   *)
(* algorithm is involved.  ExprMC.tla proves with TLC that a precedence     *)
(* climbing machine reaches the same grouping for every chain in its bound. *)
EXTENDS Naturals, Sequences, FiniteSets

(* Binary operators, loosest level first; every level groups to the left    *)
(* except the ones in RightAssoc.                                           *)
BinLevel(k) ==
  CASE k \in {"TK_OR", "TK_DOUBLE_PIPE"} -> 1
    [] k \in {"TK_AND", "TK_DOUBLE_AMPERSAND"} -> 2
    [] k = "TK_BINARY_OR" -> 3
    [] k = "TK_BINARY_XOR" -> 4
    [] k = "TK_BINARY_AND" -> 5
    [] k \in {"TK_DOUBLE_EQUAL", "TK_EXCLAMATION_MARK_EQUALS",
              "TK_LESS_THAN_EQUAL_GREATER_THAN", "TK_LESS_THAN",
              "TK_GREATER_THAN", "TK_GREATER_THAN_EQUAL", "TK_LESS_THAN_EQUAL",
              "TK_IN", "TK_NOT_IN", "TK_MATCHES", "TK_STARTS_WITH", "TK_ENDS_WITH",
              "TK_TRIPLE_EQUAL", "TK_EXCLAMATION_MARK_DOUBLE_EQUALS"} -> 6
    [] k = "TK_DOUBLE_DOT" -> 7
    [] k \in {"TK_PLUS", "TK_MINUS"} -> 8
    [] k = "TK_TILDE" -> 9
    [] k \in {"TK_STAR", "TK_FORWARD_SLASH", "TK_DOUBLE_FORWARD_SLASH", "TK_PERCENT"} -> 11
    [] k \in {"TK_IS", "TK_IS_NOT"} -> 12
    [] k = "TK_DOUBLE_STAR" -> 13
    [] k = "TK_DOUBLE_QUESTION_MARK" -> 14

RightAssoc == {13, 14}

(* A prefix operator takes everything to its right that binds tighter.      *)
PreLevel(k) ==
  CASE k = "TK_NOT" -> 10
    [] k \in {"TK_PLUS", "TK_MINUS"} -> 15
    [] k = "TK_TRIPLE_DOT" -> 16

BinOps == << <<"TK_OR", "or">>, <<"TK_DOUBLE_PIPE", "||">>, <<"TK_AND", "and">>,
  <<"TK_DOUBLE_AMPERSAND", "&&">>, <<"TK_BINARY_OR", "b-or">>, <<"TK_BINARY_XOR", "b-xor">>,
  <<"TK_BINARY_AND", "b-and">>, <<"TK_DOUBLE_EQUAL", "==">>, <<"TK_EXCLAMATION_MARK_EQUALS", "!=">>,
  <<"TK_LESS_THAN_EQUAL_GREATER_THAN", "<=>">>, <<"TK_LESS_THAN", "<">>, <<"TK_GREATER_THAN", ">">>,
  <<"TK_GREATER_THAN_EQUAL", ">=">>, <<"TK_LESS_THAN_EQUAL", "<=">>, <<"TK_IN", "in">>,
  <<"TK_NOT_IN", "not in">>, <<"TK_MATCHES", "matches">>, <<"TK_STARTS_WITH", "starts with">>,
  <<"TK_ENDS_WITH", "ends with">>, <<"TK_TRIPLE_EQUAL", "===">>,
  <<"TK_EXCLAMATION_MARK_DOUBLE_EQUALS", "!==">>, <<"TK_DOUBLE_DOT", "..">>, <<"TK_PLUS", "+">>,
  <<"TK_MINUS", "-">>, <<"TK_TILDE", "~">>, <<"TK_STAR", "*">>, <<"TK_FORWARD_SLASH", "/">>,
  <<"TK_DOUBLE_FORWARD_SLASH", "//">>, <<"TK_PERCENT", "%">>, <<"TK_DOUBLE_STAR", "**">>,
  <<"TK_DOUBLE_QUESTION_MARK", "??">>, <<"TK_IS", "is">>, <<"TK_IS_NOT", "is not">> >>
PreOps == << <<"TK_NOT", "not">>, <<"TK_MINUS", "-">>, <<"TK_PLUS", "+">>, <<"TK_TRIPLE_DOT", "...">> >>

IsBin(s, j) == s[j][1] = "bin"
IsPre(s, j) == s[j][1] = "pre"

(* Binary operator j belongs to the operand of prefix operator i.           *)
Captures(s, i, j) ==
  /\ IsPre(s, i)
  /\ \A k \in (i + 1)..j : IsBin(s, k) => BinLevel(s[k][2]) > PreLevel(s[i][2])
Free(s) == { j \in 1..Len(s) : IsBin(s, j) /\ ~ \E i \in 1..(j - 1) : Captures(s, i, j) }

(* The operator at the top of the chain: the loosest one, the last of its   *)
(* kind if it groups to the left, the first if it groups to the right.      *)
Main(s) ==
  LET free == Free(s)
      low  == CHOOSE l \in { BinLevel(s[j][2]) : j \in free } :
                \A j \in free : l <= BinLevel(s[j][2])
      here == { j \in free : BinLevel(s[j][2]) = low }
  IN IF low \in RightAssoc THEN CHOOSE j \in here : \A k \in here : j <= k
                           ELSE CHOOSE j \in here : \A k \in here : j >= k

Tok(k, x) == <<"t", k, x, FALSE, FALSE>>
Node(k, s) == << <<"o", k>> >> \o s \o << <<"c">> >>
Wrap(s) == Node("TWIG_EXPRESSION", s)

RECURSIVE Group(_)
(* The derivation symbols of the whole chain, without the outermost         *)
(* TWIG_EXPRESSION.                                                         *)
Group(s) ==
  IF Len(s) = 1 THEN s[1][2]
  ELSE IF Free(s) = {} THEN
    Node("TWIG_UNARY_EXPRESSION", <<Tok(s[1][2], s[1][3])>> \o Wrap(Group(Tail(s))))
  ELSE
    LET m     == Main(s)
        left  == SubSeq(s, 1, m - 1)
        right == SubSeq(s, m + 1, Len(s))
        bare  == Len(left) > 1 /\ Free(left) # {}
    IN Node("TWIG_BINARY_EXPRESSION",
            (IF bare THEN Group(left) ELSE Wrap(Group(left)))
            \o <<Tok(s[m][2], s[m][3])>> \o Wrap(Group(right)))
=============================================================================
