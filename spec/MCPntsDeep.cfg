SPECIFICATION Spec
CONSTANTS MaxPoints = 5 JsonLengths = {20, 21, 22, 23, 24, 25, 26, 27, 28} MaxAttrs = 3
INVARIANTS Kind Complete InOrder Inside
CHECK_DEADLOCK FALSE
