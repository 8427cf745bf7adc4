SPECIFICATION DiagSpec
INVARIANT Show
CHECK_DEADLOCK FALSE
