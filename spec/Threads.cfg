CONSTANTS
  Shared = {}
  Commands = 6
SPECIFICATION Spec
INVARIANT Independent
CHECK_DEADLOCK FALSE
