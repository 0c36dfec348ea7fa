CONSTANTS
  Menu <- LongMenu
SPECIFICATION SpecLong
INVARIANTS
  PropertiesHold
  Export
CHECK_DEADLOCK FALSE
