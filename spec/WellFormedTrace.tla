--------------------------- MODULE WellFormedTrace ---------------------------
(* Real trees of texts that were accepted without an error: every node of   *)
(* every one of them is visited.                                            *)
EXTENDS WellFormed, Lexer, Json, IOUtils

Docs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES d, verdict
vars == <<d, verdict>>
Init == d \in 1..Len(Docs) /\ verdict = ""

Faulty == { n \in 1..Len(Docs[d].tree) : Fault(Docs[d].tree, n, ToLower) # "" }
Judge ==
  /\ verdict = ""
  /\ IF Docs[d].st # "ok" THEN verdict' = "rejected" /\ PrintT("REJECT " \o ToJson([id |-> Docs[d].id, why |-> "the parser did not return: " \o Docs[d].st, node |-> ""]))
     ELSE IF Docs[d].errors > 0 \/ Faulty = {} THEN verdict' = "accepted" /\ PrintT("OK " \o ToString(Docs[d].id))
     ELSE LET n == CHOOSE n \in Faulty : \A m \in Faulty : m <= n
          IN /\ verdict' = "rejected"
             /\ PrintT("REJECT " \o ToJson([id |-> Docs[d].id, why |-> "accepted silently: " \o Fault(Docs[d].tree, n, ToLower), node |-> Docs[d].tree[n].k]))
  /\ UNCHANGED d
Spec == Init /\ [][Judge]_vars
=============================================================================
