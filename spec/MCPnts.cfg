SPECIFICATION Spec
CONSTANTS MaxPoints = 3 JsonLengths = {20, 27, 28} MaxAttrs = 2
INVARIANTS Kind Complete InOrder Inside
CHECK_DEADLOCK FALSE
