SPECIFICATION Spec
CONSTANTS Kind = "line" MaxX = 2 MaxY = 1 MaxZ = 0 N = 3 Workers = {1, 2}
INVARIANTS Kept BestSampled BestOfAll Listed Laws
CHECK_DEADLOCK FALSE
