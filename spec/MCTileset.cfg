SPECIFICATION Spec
CONSTANTS MaxSteps = 3 MaxTiles = 2
INVARIANTS Readable ReadBack NullsToo Needed Whole
PROPERTY Kept
CHECK_DEADLOCK FALSE
