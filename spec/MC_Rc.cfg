SPECIFICATION Spec
CONSTANTS
  MaxH = 5
  OutLen = 16
INVARIANT Agreement Confinement PathIndependence Partition Minimal Disclosure
CHECK_DEADLOCK FALSE
