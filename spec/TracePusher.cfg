SPECIFICATION Spec
INVARIANT TypeOK
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
