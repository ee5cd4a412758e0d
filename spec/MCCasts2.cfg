SPECIFICATION Spec
CONSTANTS From = {"U16", "I16", "F32", "F64"} Stride = 37
INVARIANTS IntInt IntFloat FloatInt FloatFloat Through Order
CHECK_DEADLOCK FALSE
