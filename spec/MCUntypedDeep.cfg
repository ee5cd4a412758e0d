SPECIFICATION Spec
CONSTANTS Types = {"U8", "I16", "Vec3u8", "F32"} Bytes = {1, 254} MaxOps = 3
INVARIANTS SameSize ReadBack Frame TooShort Access Whole
CHECK_DEADLOCK FALSE
