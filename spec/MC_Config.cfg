SPECIFICATION Spec
INVARIANTS
  PropertiesHold
  Export
CHECK_DEADLOCK FALSE
CONSTANTS
  Menu <- NoMenu
