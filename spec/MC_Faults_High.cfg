CONSTANTS
  Menu <- HighMenu
SPECIFICATION SpecHigh
INVARIANTS
  PropertiesHold
  Export
CHECK_DEADLOCK FALSE
