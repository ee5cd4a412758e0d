SPECIFICATION Spec
CONSTANTS Kind = "plane" MaxX = 1 MaxY = 1 MaxZ = 1 N = 4 Workers = {1, 2}
INVARIANTS Kept BestSampled BestOfAll Listed Laws
CHECK_DEADLOCK FALSE
