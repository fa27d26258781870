------------------------------- MODULE Report -------------------------------
(* What the program prints about a file: every syntax error and every       *)
(* finding of a rule as one block with its severity, its name, the place in *)
(* the file (line and column, both from 1; columns count characters), the   *)
(* lines it talks about and marks below the text it is about.               *)
(*                                                                          *)
(* A finding is [rule, sev, prim, sec, sug], where prim, sec and sug are    *)
(* ranges <<from, to>> in characters from 0; a printed block is             *)
(* [sev, code, path, line, col, shown, marks], where shown is a sequence of *)
(* <<number, text>>, marks one of <<number, columns of ^, columns of ->>.   *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

Breaks(source) == { i \in 1..Len(source) : SubSeq(source, i, i) = "\n" }

(* places in a text, given where its lines end *)
Line(breaks, o) == 1 + Cardinality({ b \in breaks : b <= o })
LineStart(breaks, o) == LET b == { b \in breaks : b <= o } IN IF b = {} THEN 0 ELSE CHOOSE m \in b : \A x \in b : x <= m
Column(breaks, o) == 1 + o - LineStart(breaks, o)

(* the text of a line without the space at its end *)
RECURSIVE Stripped(_)
Stripped(t) == IF t = "" THEN "" ELSE IF SubSeq(t, Len(t), Len(t)) \in {" ", "\n", "\r", "\t"} THEN Stripped(SubSeq(t, 1, Len(t) - 1)) ELSE t
LineText(source, breaks, n) ==
  LET start == IF n = 1 THEN 0 ELSE CHOOSE b \in breaks : Line(breaks, b) = n
      ends == { b \in breaks : b > start }
      end == IF ends = {} THEN Len(source) ELSE CHOOSE m \in ends : \A x \in ends : m <= x
  IN Stripped(SubSeq(source, start + 1, end))

Word(sev) == IF sev = "info" THEN "note" ELSE sev
Labels(f) == f.prim \o f.sec \o f.sug

(* The place named in the block: where its text begins, else the first of   *)
(* the other places it mentions.                                            *)
Place(f) ==
  IF f.prim # <<>> THEN f.prim[1][1]
  ELSE LET s == { Labels(f)[i][1] : i \in 1..Len(Labels(f)) } IN CHOOSE m \in s : \A x \in s : m <= x
Located(f) == Labels(f) # <<>>
Key(breaks, f) == <<Word(f.sev), f.rule, Line(breaks, Place(f)), Column(breaks, Place(f))>>
KeyOf(b) == <<b.sev, b.code, b.line, b.col>>

Ends(long, short) == Len(long) >= Len(short) /\ SubSeq(long, Len(long) - Len(short) + 1, Len(long)) = short

(* Every line a label begins or ends in is shown. strange: lines with       *)
(* characters that are printed in another way.                              *)
Edges(breaks, f) == UNION { {Line(breaks, Labels(f)[i][1]), Line(breaks, Labels(f)[i][2])} : i \in 1..Len(Labels(f)) }
Shows(source, breaks, strange, f, b) ==
  \A n \in Edges(breaks, f) :
    \E k \in 1..Len(b.shown) :
      /\ b.shown[k][1] = n
      /\ (n \in strange \/ Ends(Stripped(b.shown[k][2]), LineText(source, breaks, n)))

(* The text a finding is about is marked with ^ and that of what it also    *)
(* mentions with -, and no other text, unless a label runs over several     *)
(* lines, which moves the text. wide: lines with characters of another      *)
(* width on a screen. An empty text is marked where it would stand.         *)
Single(breaks, range) == Line(breaks, range[1]) = Line(breaks, range[2])
Columns(breaks, n, ranges) ==
  UNION { LET from == Column(breaks, ranges[i][1]) IN from..(IF ranges[i][2] = ranges[i][1] THEN from ELSE from + (ranges[i][2] - ranges[i][1]) - 1)
          : i \in { i \in 1..Len(ranges) : Line(breaks, ranges[i][1]) = n } }
Row(b, n) == LET k == { k \in 1..Len(b.marks) : b.marks[k][1] = n } IN
  IF k = {} THEN <<n, {}, {}>> ELSE LET m == b.marks[CHOOSE x \in k : TRUE] IN <<n, {m[2][i] : i \in 1..Len(m[2])}, {m[3][i] : i \in 1..Len(m[3])}>>
Marks(breaks, wide, f, b) ==
  IF \E i \in 1..Len(Labels(f)) : ~ Single(breaks, Labels(f)[i]) THEN TRUE
  ELSE \A n \in Edges(breaks, f) \ wide :
    LET hot == Columns(breaks, n, f.prim)
        cold == Columns(breaks, n, f.sec \o f.sug) \ hot
    IN Row(b, n) = <<n, hot, cold>>

Fits(source, breaks, strange, wide, f, b) ==
  /\ KeyOf(b) = Key(breaks, f)
  /\ Shows(source, breaks, strange, f, b)
  /\ Marks(breaks, wide, f, b)

(* Every finding has its own block.  Findings with the same name and place  *)
(* are as many as their blocks.                                             *)
Times(s, x) == Cardinality({ i \in 1..Len(s) : s[i] = x })
Fault(source, strange, wide, findings, blocks) ==
  LET breaks == Breaks(source)
      found == SelectSeq(findings, Located)
      keys == [i \in 1..Len(found) |-> Key(breaks, found[i])]
      printed == [i \in 1..Len(blocks) |-> KeyOf(blocks[i])]
      missing == { i \in 1..Len(keys) : Times(printed, keys[i]) < Times(keys, keys[i]) }
      extra == { i \in 1..Len(printed) : Times(printed, printed[i]) > Times(keys, printed[i]) }
      unfit == { i \in 1..Len(found) : ~ \E k \in 1..Len(blocks) : Fits(source, breaks, strange, wide, found[i], blocks[k]) }
      hidden == { i \in unfit : ~ \E k \in 1..Len(blocks) : KeyOf(blocks[k]) = keys[i] /\ Shows(source, breaks, strange, found[i], blocks[k]) }
  IN IF missing # {} THEN [why |-> "a finding is not printed at its place", key |-> keys[CHOOSE i \in missing : TRUE]]
     ELSE IF extra # {} THEN [why |-> "something is printed that was not found", key |-> printed[CHOOSE i \in extra : TRUE]]
     ELSE IF hidden # {} THEN [why |-> "the lines of a finding are not shown", key |-> keys[CHOOSE i \in hidden : TRUE]]
     ELSE IF unfit # {} THEN [why |-> "the text of a finding is not marked", key |-> keys[CHOOSE i \in unfit : TRUE]]
     ELSE [why |-> "", key |-> <<>>]

(* What is printed about one file is not torn apart by that about another.  *)
Torn(order) == \E i \in 1..Len(order), j \in 1..Len(order), k \in 1..Len(order) :
  i < j /\ j < k /\ order[i] = order[k] /\ order[j] # order[i]
=============================================================================
