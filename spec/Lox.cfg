SPECIFICATION Spec
CONSTANT MaxSteps = 6000
INVARIANT TypeOK
INVARIANT WellFormed
INVARIANT Balanced
INVARIANT Threads
CHECK_DEADLOCK FALSE
