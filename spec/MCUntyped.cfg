SPECIFICATION Spec
CONSTANTS Types = {"U8", "I16", "Vec3u8"} Bytes = {1, 254} MaxOps = 2
INVARIANTS SameSize ReadBack Frame TooShort Access Whole
CHECK_DEADLOCK FALSE
