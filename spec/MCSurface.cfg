SPECIFICATION Spec
CONSTANTS MaxX = 1 MaxY = 1 MaxZ = 2 MaxPts = 4
INVARIANTS Near Laws Flat Diagonal
CHECK_DEADLOCK FALSE
