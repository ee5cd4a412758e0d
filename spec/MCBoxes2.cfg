SPECIFICATION Spec
CONSTANTS GX = 2 GY = 1 GZ = 0 MaxPts = 2
INVARIANTS History Smallest Join Meet Approx Cubic Least
CHECK_DEADLOCK FALSE
