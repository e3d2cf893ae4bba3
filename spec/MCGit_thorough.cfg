CONSTANTS
  Msgs = {1, 2}
  Prefixes = {"p", "q"}
  MaxRev = 3
  MaxUuid = 2
  Variant = "none"
SPECIFICATION Spec
INVARIANTS TypeOK Right Fresh
CHECK_DEADLOCK FALSE
