CONSTANTS
  Menu <- ThrMenu
SPECIFICATION Spec
INVARIANTS
  PropertiesHold
  ExportThreads
CHECK_DEADLOCK FALSE
