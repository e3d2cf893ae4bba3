CONSTANTS
  Dirs = {"a", "b"}
  Msgs = {1}
  MaxTime = 3
  MaxChanges = 3
  Variant = "none"
SPECIFICATION Spec
INVARIANTS Agrees Kept TypeOK
CHECK_DEADLOCK FALSE
