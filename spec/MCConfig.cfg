SPECIFICATION Spec
CONSTANT Steps = 1
INVARIANTS ReadsBack OthersStay Agree FileOrder Order
CHECK_DEADLOCK FALSE
