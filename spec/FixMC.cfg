SPECIFICATION Spec
CONSTANTS N = 3
          Findings = 2
INVARIANTS TypeOK NeverOverlap RoundExact FailsOnlyOnSelfOverlap
PROPERTY Terminates
CHECK_DEADLOCK FALSE
