------------------------------ MODULE LintTrace ------------------------------
(* Recorded checks of the real program against Rules: the rules named in    *)
(* LINT_RULES must have reported exactly what they have to.                 *)
EXTENDS Rules, Json, IOUtils

Docs == ndJsonDeserialize(IOEnv.TRACE)
Judged == JsonDeserialize(IOEnv.LINT_RULES)
VARIABLES d, verdict
vars == <<d, verdict>>
Init == d \in 1..Len(Docs) /\ verdict = ""

Cfg(c) == [lineEnding |-> c.lineEnding, indentationMode |-> c.indentationMode, indentationCount |-> c.indentationCount,
           indentChildrenOfBlocks |-> c.indentChildrenOfBlocks, linebreaksAroundBlocks |-> c.linebreaksAroundBlocks,
           twigQuotation |-> c.twigQuotation, htmlQuotation |-> c.htmlQuotation,
           validFilters |-> { c.validFilters[i] : i \in 1..Len(c.validFilters) },
           validTests |-> { c.validTests[i] : i \in 1..Len(c.validTests) },
           validFunctions |-> { c.validFunctions[i] : i \in 1..Len(c.validFunctions) }]
Off(D, R) == ~\E i \in 1..Len(D.rules) : D.rules[i] = R
Report(D, R, w) == PrintT("REJECT " \o ToJson([id |-> D.id, rule |-> R, why |-> w.why, finding |-> w.finding, other |-> w.other]))

RECURSIVE Faults(_, _, _, _)
Faults(D, P, cfg, i) ==
  IF i > Len(Judged) THEN TRUE
  ELSE LET R == Judged[i]
           w == IF Off(D, R) THEN [why |-> ""] ELSE Difference(D.nodes, P, cfg, R, D.results, D.errors)
       IN IF w.why = "" THEN Faults(D, P, cfg, i + 1) ELSE Report(D, R, w) /\ Faults(D, P, cfg, i + 1) /\ FALSE

Judge ==
  /\ verdict = ""
  /\ LET D == Docs[d] IN
     IF D.st # "ok" THEN /\ PrintT("REJECT " \o ToJson([id |-> D.id, rule |-> "", why |-> "the program did not check this file", finding |-> 0, other |-> {}]))
                         /\ verdict' = "rejected"
     ELSE LET cfg == Cfg(D.cfg)
              P == TLCEval(Places(D.nodes, 1, <<>>, cfg))
          IN IF Faults(D, P, cfg, 1) THEN PrintT("OK " \o ToString(D.id)) /\ verdict' = "accepted" ELSE verdict' = "rejected"
  /\ UNCHANGED d
Spec == Init /\ [][Judge]_vars
=============================================================================
