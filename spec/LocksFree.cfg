SPECIFICATION Spec
CONSTANT Free = TRUE
INVARIANT Exclusion
INVARIANT NoLostUpdate
CHECK_DEADLOCK TRUE
