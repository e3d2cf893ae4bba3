SPECIFICATION Spec
CONSTANT NMids = 3
CONSTANT MaxSteps = 5
CONSTANT Gen = FALSE
CONSTANT Mode = "threads"
VIEW View
INVARIANTS TypeDB Threads Hidden OneOwner Marks Published
PROPERTY StepMarks
PROPERTY StepThreads
CHECK_DEADLOCK FALSE
