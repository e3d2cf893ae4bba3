SPECIFICATION Spec
CONSTANT NMids = 2
CONSTANT MaxSteps = 5
CONSTANT Gen = TRUE
CONSTANT Mode = "sections"
VIEW View
INVARIANTS Emit TypeDB Threads Hidden OneOwner Marks Published
PROPERTY StepMarks

CHECK_DEADLOCK FALSE
