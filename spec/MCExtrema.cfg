SPECIFICATION Spec
CONSTANTS Values = {0, 1, 2} MaxPts = 3
INVARIANTS Exact Attained Bounding Symmetric PerAxis
PROPERTY Grows
CHECK_DEADLOCK FALSE
