CONSTANTS
  Menu <- LifeMenu
SPECIFICATION SpecModes
INVARIANTS
  PropertiesHold
  Export
CHECK_DEADLOCK FALSE
