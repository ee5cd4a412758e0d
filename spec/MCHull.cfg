SPECIFICATION Spec
CONSTANTS Places <- SomePlaces Deepest = 6
INVARIANTS IsHull Oriented Unique Euler StrictFaces
CHECK_DEADLOCK FALSE
