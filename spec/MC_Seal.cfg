SPECIFICATION Spec
CONSTANTS
  MaxEdits = 1
  MaxH = 6
INVARIANT Authentic AuthenticW
VIEW View
CHECK_DEADLOCK FALSE
