CONSTANTS
  Menu <- LifeMenu
SPECIFICATION Spec
INVARIANTS
  PropertiesHold
  Export
CHECK_DEADLOCK FALSE
