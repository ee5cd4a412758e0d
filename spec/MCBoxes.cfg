SPECIFICATION Spec
CONSTANTS GX = 2 GY = 1 GZ = 1 MaxPts = 2
INVARIANTS History Smallest Join Meet Approx Cubic
CHECK_DEADLOCK FALSE
