SPECIFICATION Spec
CONSTANTS MaxX = 1 MaxY = 1 MaxZ = 1 MaxPts = 5
INVARIANTS Near Laws Flat Diagonal
CHECK_DEADLOCK FALSE
