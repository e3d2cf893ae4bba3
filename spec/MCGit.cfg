CONSTANTS
  Msgs = {1}
  Prefixes = {"p", "q"}
  MaxRev = 4
  MaxUuid = 2
  Variant = "none"
SPECIFICATION Spec
INVARIANTS TypeOK Right Fresh
CHECK_DEADLOCK FALSE
