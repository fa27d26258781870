------------------------------- MODULE IgnoreMC -------------------------------
(* The walk over the tree that finds out which rules are ignored where, for  *)
(* every small tree with directives anywhere: on entering an element behind  *)
(* a directive the listed rules join the ignored ones, on leaving it they    *)
(* are taken back; behind a directive without rules the element is skipped.  *)
(* At every element the ignored rules are those of Ignore's definition.      *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS N
Labels == {"element", "all", "a", "ab", "aa"}
Lists(l) == CASE l = "element" -> <<>> [] l = "all" -> <<>> [] l = "a" -> <<"a">> [] l = "ab" -> <<"a", "b">> [] l = "aa" -> <<"a", "a">>
IsDirective(l) == l # "element"

(* trees in preorder: parents, where every parent is an ancestor-or-self of *)
(* the node before                                                          *)
RECURSIVE AncestorsOf(_, _)
AncestorsOf(p, n) == IF n = 0 THEN {} ELSE {n} \cup AncestorsOf(p, p[n])
Trees == { p \in [1..N -> 0..(N - 1)] : p[1] = 0 /\ \A n \in 2..N : p[n] \in AncestorsOf(p, n - 1) /\ p[n] # 0 }
VARIABLES p, lab, at, open, ignored, broken
vars == <<p, lab, at, open, ignored, broken>>
SiblingBefore(n) == LET s == { m \in 1..(n - 1) : p[m] = p[n] } IN IF s = {} \/ p[n] = 0 THEN 0 ELSE CHOOSE m \in s : \A o \in s : o <= m
Behind(n) == LET s == SiblingBefore(n) IN IF s = 0 THEN "element" ELSE lab[s]
(* what Ignore says: the directives in front of n and of its ancestors      *)
Declared(n) == UNION { IF Behind(m) = "all" THEN {"*"} ELSE { Lists(Behind(m))[i] : i \in 1..Len(Lists(Behind(m))) } : m \in AncestorsOf(p, n) }

LastIn(n) == LET s == { m \in 1..N : n \in AncestorsOf(p, m) } IN CHOOSE m \in s : \A o \in s : o <= m
RECURSIVE Without(_, _, _)
Without(l, x, i) == IF i > Len(l) THEN <<"none">> ELSE IF l[i] = x THEN SubSeq(l, 1, i - 1) \o SubSeq(l, i + 1, Len(l)) ELSE Without(l, x, i + 1)
RECURSIVE WithoutAll(_, _, _)
WithoutAll(l, xs, i) == IF i > Len(xs) THEN l ELSE WithoutAll(Without(l, xs[i], 1), xs, i + 1)

Init == /\ p \in Trees /\ lab \in [1..N -> Labels] /\ lab[1] = "element"
        /\ at = 1 /\ open = <<>> /\ ignored = <<>> /\ broken = FALSE
(* the open elements that do not hold the next node are left first          *)
Leave == /\ open # <<>>
         /\ LET n == open[Len(open)] IN
            /\ IF at > N THEN TRUE ELSE n \notin AncestorsOf(p, at)
            /\ ignored' = WithoutAll(ignored, Lists(Behind(n)), 1)
            /\ broken' = \E i \in 1..Len(ignored') : ignored'[i] = "none"
         /\ open' = SubSeq(open, 1, Len(open) - 1)
         /\ UNCHANGED <<p, lab, at>>
Enter == /\ at <= N /\ (IF open = <<>> THEN TRUE ELSE open[Len(open)] \in AncestorsOf(p, at))
         /\ IF Behind(at) = "all" THEN at' = LastIn(at) + 1 /\ UNCHANGED <<open, ignored>>
            ELSE at' = at + 1 /\ open' = Append(open, at) /\ ignored' = ignored \o Lists(Behind(at))
         /\ UNCHANGED <<p, lab, broken>>
Next == Leave \/ Enter
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

TypeOK == at \in 1..(N + 1) /\ Len(open) <= N
NeverBroken == ~broken
(* just entered: the visited element is the innermost open one              *)
Exact == (IF open = <<>> THEN FALSE ELSE open[Len(open)] = at - 1) => { ignored[i] : i \in 1..Len(ignored) } = Declared(at - 1)
(* no element with rules to run is left out                                 *)
SkipsOnlyIgnored == [][\A n \in at..(at' - 1) : (n = at /\ open' # open) \/ "*" \in Declared(n)]_vars
Balanced == at > N /\ open = <<>> => ignored = <<>>
EndsTogether == <>(at > N /\ open = <<>>)
=============================================================================
