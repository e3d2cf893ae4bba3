SPECIFICATION Spec
INVARIANT DBsOk
INVARIANT Done
CHECK_DEADLOCK FALSE
