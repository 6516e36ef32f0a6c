SPECIFICATION Spec
CONSTANTS
  MaxEdits = 2
  MaxH = 6
INVARIANT Authentic AuthenticW
VIEW View
CHECK_DEADLOCK FALSE
