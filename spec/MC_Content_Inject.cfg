SPECIFICATION SpecInject
INVARIANTS
  PropertiesHold
  Export
CHECK_DEADLOCK FALSE
CONSTANTS
  Menu <- RejectMenu
