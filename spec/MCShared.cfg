SPECIFICATION Spec
CONSTANTS
 S = {1,2,3}
 Ops = {"a","b"}
 Steps = 4
 Shared = TRUE
INVARIANTS Accepted SameNode Single
CHECK_DEADLOCK FALSE
