SPECIFICATION Spec
CONSTANTS Fmts = {0, 3, 5, 6, 10} Minors = {3, 4} MaxPoints = 2 Steps = {2} Positions <- MoreSpots
INVARIANTS Kind Honest InOrder Inside
CHECK_DEADLOCK FALSE
