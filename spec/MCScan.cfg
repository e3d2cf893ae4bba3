CONSTANTS
  Dirs = {"a", "b"}
  Msgs = {1}
  MaxTime = 2
  MaxChanges = 2
  Variant = "none"
SPECIFICATION Spec
INVARIANTS Agrees Kept TypeOK
CHECK_DEADLOCK FALSE
