SPECIFICATION Spec
CONSTANTS
  N = 4
  B = 11
INVARIANTS OnePlace Fair StartedRuns IdleOk
CHECK_DEADLOCK FALSE
