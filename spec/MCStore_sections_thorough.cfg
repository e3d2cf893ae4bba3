SPECIFICATION Spec
CONSTANT NMids = 2
CONSTANT MaxSteps = 8
CONSTANT Gen = FALSE
CONSTANT Mode = "sections"
VIEW View
INVARIANTS TypeDB Threads Hidden OneOwner Marks Published
PROPERTY StepMarks

CHECK_DEADLOCK FALSE
