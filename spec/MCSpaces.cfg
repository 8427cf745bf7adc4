SPECIFICATION Spec
CONSTANTS
 S = {1,2,3}
 Ops = {"a","b"}
 Steps = 5
 Shared = FALSE
INVARIANTS Accepted SameNode Single
CHECK_DEADLOCK FALSE
