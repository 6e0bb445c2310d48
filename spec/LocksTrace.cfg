SPECIFICATION Spec
CONSTANT Free = FALSE
INVARIANT Exclusion
INVARIANT NoLostUpdate
CHECK_DEADLOCK FALSE
