SPECIFICATION Spec
CONSTANTS Exts = {"las", "LAZ", "pnts", "txt"} MaxPoints = 1 MaxSteps = 3
INVARIANTS Sound ReadBack Appended Written
PROPERTY Others
CHECK_DEADLOCK FALSE
