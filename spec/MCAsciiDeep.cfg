SPECIFICATION Spec
CONSTANTS MaxPoints = 3 MaxPlaces = 5 Whole = 900
INVARIANTS Position Lines RoundTrip
CHECK_DEADLOCK FALSE
