SPECIFICATION Spec
CONSTANTS MaxX = 4 MaxY = 1 MaxPts = 3 Sizes = {1, 2, 3}
INVARIANTS Sorted Partition Nearest Finished Ties Averages
CHECK_DEADLOCK FALSE
