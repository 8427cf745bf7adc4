SPECIFICATION DiagSpec
INVARIANT Furthest
CHECK_DEADLOCK FALSE
