SPECIFICATION Spec
CONSTANTS
  Keys = {1, 2}
  Msgs = {0, 1, 3, 7}
  Slot = {"a", "b", "c"}
  Sizes = {1, 16, 32, 64, 65, 128, 200}
INVARIANT Functional Silent OneOwner
CHECK_DEADLOCK FALSE
