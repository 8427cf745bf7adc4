SPECIFICATION LineSpec
INVARIANT LineOk
CONSTANTS
 Nx = 2
 Ny = 2
 Vals = {0,2}
 Points = {1,2,3}
 Adds = 4
 Side = 2
 MaxPts = 5
 LineLen = 4
CHECK_DEADLOCK FALSE
