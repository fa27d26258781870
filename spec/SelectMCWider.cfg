SPECIFICATION Spec
CONSTANTS
  Workers = {1}
  Size = 3
INVARIANTS TypeOK OnlySelected Once AllSelected NamedAlways Plain
PROPERTY Ends
CHECK_DEADLOCK FALSE
