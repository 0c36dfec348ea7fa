CONSTANTS
  U = 3
  T = 4
  MaxStrikes = 8
SPECIFICATION Spec
INVARIANTS
  Used
  NotEarly
  Bounded
PROPERTIES
  Ends
CHECK_DEADLOCK FALSE
