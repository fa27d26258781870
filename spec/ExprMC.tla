-------------------------------- MODULE ExprMC --------------------------------
(* The declarative grouping of Expr.tla is the one a precedence-climbing    *)
(* machine builds: checked for every chain within the bound.                *)
(* The machine reads the chain left to right and keeps a stack of open      *)
(* operators; it knows nothing of Main, Captures or Free.                   *)
EXTENDS Expr, TLC, Integers

CONSTANTS Levels,      \* indices into BinOps: the binary operators to combine
          MaxBin,      \* at most this many binary operators
          MaxPre       \* at most this many prefix operators in a row before an operand

VARIABLES chain, pos, out, ops
vars == <<chain, pos, out, ops>>

Opd(n) == <<"opd", << <<"t", "TK_WORD", SubSeq("abcdefg", n, n), FALSE, FALSE>> >> >>
PreSeqs == UNION { [1..n -> 1..Len(PreOps)] : n \in 0..MaxPre }
RECURSIVE Build(_, _, _, _)
Build(bins, pres, n, acc) ==
  LET here == acc \o [k \in 1..Len(pres[n]) |-> <<"pre", PreOps[pres[n][k]][1], PreOps[pres[n][k]][2]>>] \o <<Opd(n)>>
  IN IF n > Len(bins) THEN here
     ELSE Build(bins, pres, n + 1, here \o << <<"bin", BinOps[bins[n]][1], BinOps[bins[n]][2]>> >>)
Chains == UNION { { Build(b, p, 1, <<>>) : b \in [1..n -> Levels], p \in [1..(n + 1) -> PreSeqs] } : n \in 0..MaxBin }

Init == chain \in Chains /\ pos = 1 /\ out = <<>> /\ ops = <<>>

(* An entry of out is <<symbols, bare>>: bare if it is a binary expression  *)
(* that may stand directly as the left side of another one.                 *)
Wrapped(e) == Wrap(e[1])
Left(e) == IF e[2] THEN e[1] ELSE Wrapped(e)
Top(s) == s[Len(s)]
Pop(s) == SubSeq(s, 1, Len(s) - 1)
Level(o) == IF o[1] = "pre" THEN PreLevel(o[2]) ELSE BinLevel(o[2])

(* close the operator on top of the stack                                   *)
Close ==
  LET o == Top(ops) IN
  /\ ops' = Pop(ops)
  /\ out' = IF o[1] = "pre"
            THEN Append(Pop(out), <<Node("TWIG_UNARY_EXPRESSION", <<Tok(o[2], o[3])>> \o Wrapped(Top(out))), FALSE>>)
            ELSE LET l == out[Len(out) - 1] r == Top(out)
                 IN Append(Pop(Pop(out)), <<Node("TWIG_BINARY_EXPRESSION", Left(l) \o <<Tok(o[2], o[3])>> \o Wrapped(r)), TRUE>>)
  /\ UNCHANGED <<chain, pos>>

(* the open operator on top takes its operand before item b comes           *)
Finished(b) ==
  ops # <<>> /\ LET o == Top(ops) IN
    \/ Level(o) > BinLevel(b[2])
    \/ Level(o) = BinLevel(b[2]) /\ (o[1] = "pre" \/ BinLevel(b[2]) \notin RightAssoc)

Read ==
  /\ pos <= Len(chain)
  /\ LET it == chain[pos] IN
     CASE it[1] = "opd" -> out' = Append(out, <<it[2], FALSE>>) /\ pos' = pos + 1 /\ UNCHANGED <<ops, chain>>
       [] it[1] = "pre" -> ops' = Append(ops, it) /\ pos' = pos + 1 /\ UNCHANGED <<out, chain>>
       [] OTHER -> IF Finished(it) THEN Close
                   ELSE ops' = Append(ops, it) /\ pos' = pos + 1 /\ UNCHANGED <<out, chain>>
End == pos > Len(chain) /\ ops # <<>> /\ Close
Next == Read \/ End
Spec == Init /\ [][Next]_vars

Done == pos > Len(chain) /\ ops = <<>>
SameGrouping == Done => Len(out) = 1 /\ out[1][1] = Group(chain)
(* every operator and operand of the chain is in the tree, in order         *)
Leaves(s) == SelectSeq(s, LAMBDA x : x[1] = "t")
InOrder == Done => [k \in 1..Len(Leaves(out[1][1])) |-> Leaves(out[1][1])[k][3]]
                   = [k \in 1..Len(chain) |-> IF chain[k][1] = "opd" THEN chain[k][2][1][3] ELSE chain[k][3]]
=============================================================================
