SPECIFICATION Spec
CONSTANTS Places = 3 MaxPts = 2 MaxCalls = 2
INVARIANTS Refines Progress Others Laws
CHECK_DEADLOCK FALSE
