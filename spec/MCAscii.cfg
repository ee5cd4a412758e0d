SPECIFICATION Spec
CONSTANTS MaxPoints = 2 MaxPlaces = 3 Whole = 40
INVARIANTS Position Lines RoundTrip
CHECK_DEADLOCK FALSE
