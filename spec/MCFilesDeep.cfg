SPECIFICATION Spec
CONSTANTS Exts = {"las", "LAZ", "pnts", "txt"} MaxPoints = 1 MaxSteps = 4
INVARIANTS Sound ReadBack Appended Written
PROPERTY Others
CHECK_DEADLOCK FALSE
