SPECIFICATION Spec
CONSTANTS Fmts = {1, 8} Minors = {2, 4} MaxPoints = 2 Steps = {8} Positions <- Spots
INVARIANTS Kind Honest InOrder Inside
CHECK_DEADLOCK FALSE
