SPECIFICATION Spec
INVARIANTS
  HelpersSound
  Export
CHECK_DEADLOCK FALSE
