SPECIFICATION SpecArgs
INVARIANTS
  ValuesHold
  Export
CHECK_DEADLOCK FALSE
