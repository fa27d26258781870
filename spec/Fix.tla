--------------------------------- MODULE Fix ---------------------------------
(* What --fix may do to one file.  A finding carries a sequence of edits     *)
(* <<from, to, text>>; a round applies some of them to the text at once.     *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Overlap(a, b) == ~(a[2] <= b[1] \/ b[2] <= a[1])
Piece(text, from, to) == SubSeq(text, from + 1, to)

(* edits in the order of their places; two insertions at one place may come *)
(* in either order                                                          *)
Before(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])
(* the text with exactly the ranges of these edits (a sequence of edits that *)
(* don't overlap, in order) replaced                                        *)
RECURSIVE Spliced(_, _, _, _)
Spliced(text, edits, i, at) ==
  IF i > Len(edits) THEN Piece(text, at, Len(text))
  ELSE Piece(text, at, edits[i][1]) \o edits[i][3] \o Spliced(text, edits, i + 1, edits[i][2])
Ordered(edits) == \A i \in 1..(Len(edits) - 1) : ~Before(edits[i + 1], edits[i])

Fixable(results) == SelectSeq(results, LAMBDA r : Len(r.sug) > 0)
InSeq(x, s) == \E i \in 1..Len(s) : s[i] = x
Times(x, s) == Cardinality({ i \in 1..Len(s) : s[i] = x })

(* "" or what is wrong with the edits a round chose, in order               *)
ChoiceFault(results, chosen) ==
  LET fix == Fixable(results)
      whole(r) == \A i \in 1..Len(r.sug) : InSeq(r.sug[i], chosen)
  IN IF Len(chosen) = 0 THEN "no finding is fixed in a round in which something is fixable"
     ELSE IF \E i \in 1..(Len(chosen) - 1) : Overlap(chosen[i], chosen[i + 1]) THEN "edits of one round overlap"
     ELSE IF \E i \in 1..Len(chosen) : ~\E j \in 1..Len(fix) : InSeq(chosen[i], fix[j].sug) THEN "an edit that belongs to no current finding is applied"
     ELSE IF \E i \in 1..Len(chosen) : ~\E j \in 1..Len(fix) : InSeq(chosen[i], fix[j].sug) /\ whole(fix[j]) THEN "only a part of the edits of a finding is applied"
     ELSE IF \E i \in 1..Len(chosen) : Times(chosen[i], chosen) > Cardinality({ p \in (1..Len(fix)) \X (1..8) : whole(fix[p[1]]) /\ p[2] <= Len(fix[p[1]].sug) /\ fix[p[1]].sug[p[2]] = chosen[i] })
          THEN "an edit is applied more often than there are findings with it"
     ELSE ""
(* neighbouring insertions at the same place can have been applied either way *)
RECURSIVE Orders(_, _)
Orders(edits, i) ==
  IF i >= Len(edits) THEN {edits}
  ELSE LET rest == Orders(edits, i + 1) IN
       IF edits[i][1] = edits[i + 1][1] /\ edits[i][2] = edits[i + 1][2]
       THEN rest \cup { [e EXCEPT ![i] = e[i + 1], ![i + 1] = e[i]] : e \in rest } ELSE rest
RoundFault(text, results, chosen, next) ==
  LET w == ChoiceFault(results, chosen) IN
  IF w # "" THEN w
  ELSE IF ~Ordered(chosen) THEN "edits are out of order"
  ELSE IF next = Spliced(text, chosen, 1, 0) THEN ""
  ELSE IF \E e \in Orders(chosen, 1) : next = Spliced(text, e, 1, 0) THEN ""
  ELSE "the new text is not the old one with exactly the chosen ranges replaced"
=============================================================================
