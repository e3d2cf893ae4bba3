SPECIFICATION Spec
CONSTANT MaxRuns = 5
INVARIANTS NeverLost ForeignKept Says
CHECK_DEADLOCK FALSE
