SPECIFICATION Spec
CONSTANTS N = 2
          Findings = 3
INVARIANTS TypeOK NeverOverlap RoundExact FailsOnlyOnSelfOverlap
CHECK_DEADLOCK FALSE
