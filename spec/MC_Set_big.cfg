SPECIFICATION Spec
CONSTANTS
  Elems = {1, 2, 3}
  Bound = 1
INVARIANT PathIndependence Injective Valid EmptyIsInfinity
CHECK_DEADLOCK FALSE
