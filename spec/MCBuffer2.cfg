SPECIFICATION Spec
CONSTANTS MaxLen = 2  NA = 2  Depth = 2
CONSTANT Values <- MCValues
CONSTRAINT Bounded
VIEW View
INVARIANTS TypeOK Refines WindowsCompose NoEscape Iterators Filtering
PROPERTY Promises
CHECK_DEADLOCK FALSE
