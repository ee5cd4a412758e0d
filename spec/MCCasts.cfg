SPECIFICATION Spec
CONSTANTS From = {"U8", "I8"} Stride = 1
INVARIANTS Rounding IntInt IntFloat FloatInt FloatFloat Through Order
CHECK_DEADLOCK FALSE
