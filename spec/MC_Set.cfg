SPECIFICATION Spec
CONSTANTS
  Elems = {1, 2}
  Bound = 2
INVARIANT PathIndependence Injective Valid EmptyIsInfinity
CHECK_DEADLOCK FALSE
