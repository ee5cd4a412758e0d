SPECIFICATION Spec
CONSTANTS MaxAttrs = 3  Packings = {0, 1, 2, 4}  Small = FALSE
INVARIANTS SaneLayout LowestOffset Untouched NeverSmaller PointSize Alignment Uniform Rebuild Lookups
CHECK_DEADLOCK FALSE
