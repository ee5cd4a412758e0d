SPECIFICATION Spec
CONSTANTS Types = {"U8", "F32", "Vec3u8", "Vec3f32"} MaxFrom = 2 MaxTo = 2 MaxMaps = 1
INVARIANTS Result Frame NoSourceKeeps Unmapped ValuesFit TypeOK
PROPERTY OnlyItsTarget
CHECK_DEADLOCK FALSE
