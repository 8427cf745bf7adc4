SPECIFICATION LineSpec
INVARIANT LineOk
CONSTANTS
 Nx = 2
 Ny = 2
 Vals = {0,2}
 Points = {1,2,3}
 Adds = 4
 Side = 1
 MaxPts = 5
 LineLen = 5
CHECK_DEADLOCK FALSE
