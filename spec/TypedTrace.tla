----------------------------- MODULE TypedTrace -----------------------------
(* Real trees and what the real typed tree said about their nodes.          *)
EXTENDS Typed, Json, IOUtils

Docs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES d, verdict
vars == <<d, verdict>>
Init == d \in 1..Len(Docs) /\ verdict = ""

Real(r, n) == { <<v[1], v[2]>> : v \in ToSet(r.views[n]) }
Known(tree, n) == FirstLeaf(tree, n) # 0
Told(r, n) == IF Known(r.tree, n) THEN Real(r, n) ELSE { v \in Real(r, n) : v[1] # "trimmed" }
Wrong(r) == { n \in 1..Len(r.tree) : ~ IsToken(r.tree, n) /\ Told(r, n) # Said(r.tree, n) }
Faulty(r) == IF r.errors > 0 THEN {} ELSE { n \in 1..Len(r.tree) : ~ IsToken(r.tree, n) /\ TextFault(r.tree, n) # "" }

Reject(why, n, real, said) ==
  PrintT("REJECT " \o ToJson([id |-> Docs[d].id, why |-> why, node |-> IF n = 0 THEN "" ELSE Docs[d].tree[n].k, real |-> real, said |-> said]))
Judge ==
  /\ verdict = ""
  /\ LET r == Docs[d] IN
     IF r.st # "ok" THEN verdict' = "rejected" /\ Reject("the parser did not return: " \o r.st, 0, {}, {})
     ELSE IF Wrong(r) # {} THEN
       LET n == CHOOSE n \in Wrong(r) : \A m \in Wrong(r) : n <= m
           x == CHOOSE x \in (Told(r, n) \ Said(r.tree, n)) \cup (Said(r.tree, n) \ Told(r, n)) : TRUE
       IN verdict' = "rejected" /\ Reject(x[1] \o " of a node", n, Told(r, n) \ Said(r.tree, n), Said(r.tree, n) \ Told(r, n))
     ELSE IF Faulty(r) # {} THEN
       LET n == CHOOSE n \in Faulty(r) : \A m \in Faulty(r) : n <= m
       IN verdict' = "rejected" /\ Reject(TextFault(r.tree, n), n, {}, {})
     ELSE verdict' = "accepted" /\ PrintT("OK " \o ToString(r.id))
  /\ UNCHANGED d
Spec == Init /\ [][Judge]_vars
=============================================================================
