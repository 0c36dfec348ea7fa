CONSTANTS
  Menu <- FaultMenu
SPECIFICATION SpecZero
INVARIANTS
  PropertiesHold
  Export
CHECK_DEADLOCK FALSE
