SPECIFICATION Spec
INVARIANTS Unlocked AfterCommit Refused Once Off Says
PROPERTIES Ends
CHECK_DEADLOCK FALSE
