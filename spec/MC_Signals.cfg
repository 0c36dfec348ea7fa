CONSTANTS
  Menu <- SigMenu
SPECIFICATION Spec
INVARIANTS
  PropertiesHold
  Export
CHECK_DEADLOCK FALSE
