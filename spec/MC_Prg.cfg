SPECIFICATION Spec
CONSTANTS
  Starts = {"0", "1", "63", "64", "65", "4294967290", "274877906880", "274877906943", "1099511627700"}
  Steps = {1, 31, 32, 64, 65}
  Far = 200
  KeySizes = {16, 32, 48, 112}
  MaxIdx = 40
INVARIANT Composition Agreement
CHECK_DEADLOCK FALSE
