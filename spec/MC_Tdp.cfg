SPECIFICATION Spec
CONSTANTS
  PrimePairs <- Pairs
  Exps = {3, 5, 7, 17}
  Span = 6
INVARIANT Position InRange
CHECK_DEADLOCK FALSE
