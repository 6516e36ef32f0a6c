SPECIFICATION Spec
CONSTANTS
  MaxHay = 8
  MaxNeedle = 4
INVARIANT Agrees InBounds First
CHECK_DEADLOCK FALSE
