SPECIFICATION Spec
INVARIANTS
  ValuesHold
  Export
CHECK_DEADLOCK FALSE
