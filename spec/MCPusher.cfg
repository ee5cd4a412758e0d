SPECIFICATION Spec
CONSTANTS MaxAttrs = 2 MaxPush = 3 MaxPts = 2
INVARIANTS Rectangular Collected SameLength Complete1 Verdict
PROPERTY AllOrNothing
CHECK_DEADLOCK FALSE
