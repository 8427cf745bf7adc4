SPECIFICATION Spec
INVARIANTS VecOk BoxOk RayOk MatOk
CONSTANTS
 Side = 3
 Entries = {-2,0,1,3}
CHECK_DEADLOCK FALSE
