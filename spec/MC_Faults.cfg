CONSTANTS
  Menu <- FaultMenu
SPECIFICATION Spec
INVARIANTS
  PropertiesHold
  Export
CHECK_DEADLOCK FALSE
