SPECIFICATION Spec
CONSTANTS
  Workers = {1, 2}
  Size = 2
INVARIANTS TypeOK OnlySelected Once AllSelected NamedAlways Plain
PROPERTY Ends
CHECK_DEADLOCK FALSE
