SPECIFICATION SpecBodies
INVARIANTS
  PropertiesHold
  FormatHolds
  Export
CHECK_DEADLOCK FALSE
CONSTANTS
  Menu <- NoMenu
