SPECIFICATION Spec
INVARIANTS VecOk BoxOk RayOk MatOk
CONSTANTS
 Side = 2
 Entries = {0,1,3}
CHECK_DEADLOCK FALSE
