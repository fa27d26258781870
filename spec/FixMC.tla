-------------------------------- MODULE FixMC --------------------------------
(* The fix round as a state machine, for every pattern of overlapping edits  *)
(* of a few findings on a short text: findings are taken in order, the edits *)
(* of a finding join the round if none of them overlaps one that is in       *)
(* already, and the round's edits are applied from the back to the front.    *)
EXTENDS Fix
CONSTANTS N, Findings
Text == SubSeq("abcdefgh", 1, N)
Edits == { e \in (0..N) \X (0..N) \X {"X"} : e[1] <= e[2] }
One == { <<e>> : e \in Edits }
Two == { <<e, f>> : e \in Edits, f \in Edits }
Groups == { [sug |-> g] : g \in One \cup { g \in Two : Before(g[1], g[2]) } }
VARIABLES results, k, chosen, text, left, state
vars == <<results, k, chosen, text, left, state>>

SelfOverlap(r) == \E i, j \in 1..Len(r.sug) : i < j /\ Overlap(r.sug[i], r.sug[j])
RECURSIVE Insert(_, _)
Insert(s, e) == IF s = <<>> THEN <<e>> ELSE IF Before(e, s[1]) THEN <<e>> \o s ELSE <<s[1]>> \o Insert(Tail(s), e)
RECURSIVE InsertAll(_, _, _)
InsertAll(s, g, i) == IF i > Len(g) THEN s ELSE InsertAll(Insert(s, g[i]), g, i + 1)

Init == /\ results \in [1..Findings -> Groups]
        /\ k = 1 /\ chosen = <<>> /\ text = Text /\ left = 0 /\ state = "choose"
Take == /\ state = "choose" /\ k <= Findings
        /\ IF SelfOverlap(results[k]) THEN state' = "failed" /\ UNCHANGED <<chosen, k>>
           ELSE /\ chosen' = IF \E i \in 1..Len(results[k].sug) : \E j \in 1..Len(chosen) : Overlap(results[k].sug[i], chosen[j]) THEN chosen ELSE InsertAll(chosen, results[k].sug, 1)
                /\ k' = k + 1 /\ state' = state
        /\ UNCHANGED <<results, text, left>>
Begin == state = "choose" /\ k > Findings /\ state' = "splice" /\ left' = Len(chosen) /\ UNCHANGED <<results, k, chosen, text>>
(* replace_range of the last edit that is left                              *)
Splice == /\ state = "splice" /\ left > 0
          /\ text' = Piece(text, 0, chosen[left][1]) \o chosen[left][3] \o Piece(text, chosen[left][2], Len(text))
          /\ left' = left - 1 /\ UNCHANGED <<results, k, chosen, state>>
Done == state = "splice" /\ left = 0 /\ state' = "done" /\ UNCHANGED <<results, k, chosen, text, left>>
Next == Take \/ Begin \/ Splice \/ Done
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

TypeOK == /\ state \in {"choose", "splice", "done", "failed"} /\ k \in 1..(Findings + 1) /\ left \in 0..(2 * Findings)
NeverOverlap == \A i, j \in 1..Len(chosen) : i < j => ~Overlap(chosen[i], chosen[j])
RoundExact == state = "done" => RoundFault(Text, results, chosen, text) = ""
FailsOnlyOnSelfOverlap == state = "failed" => \E i \in 1..Findings : SelfOverlap(results[i])
Terminates == <>(state \in {"done", "failed"})
=============================================================================
