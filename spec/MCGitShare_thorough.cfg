CONSTANTS
  MaxCommits = 10
SPECIFICATION Spec
INVARIANTS Kept Merges Shared
PROPERTY Forward
CHECK_DEADLOCK FALSE
