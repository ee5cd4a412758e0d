SPECIFICATION Spec
CONSTANTS MaxX = 7 MaxY = 2 MaxPts = 3 Sizes = {1, 2, 3}
INVARIANTS Sorted Partition Nearest Finished Ties Averages
CHECK_DEADLOCK FALSE
