SPECIFICATION Spec
INVARIANTS OneMeaning Labels RoundTrips Sizes
CONSTANTS N = 9
CHECK_DEADLOCK FALSE
