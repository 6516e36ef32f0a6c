SPECIFICATION Spec
CONSTANTS
  P = 5
  MaxPunct = 1
INVARIANT Works
CHECK_DEADLOCK FALSE
