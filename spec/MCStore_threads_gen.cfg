SPECIFICATION Spec
CONSTANT NMids = 3
CONSTANT MaxSteps = 3
CONSTANT Gen = TRUE
CONSTANT Mode = "threads"
VIEW View
INVARIANTS Emit TypeDB Threads Hidden OneOwner Marks Published
PROPERTY StepMarks
PROPERTY StepThreads
CHECK_DEADLOCK FALSE
