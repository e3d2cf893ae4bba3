CONSTANTS
  MaxCommits = 8
SPECIFICATION Spec
INVARIANTS Kept Merges Shared
PROPERTY Forward
CHECK_DEADLOCK FALSE
