CONSTANT MaxSteps = 3000
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
