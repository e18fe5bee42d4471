SPECIFICATION Spec
INVARIANTS Inside Counted Laws Mirrored EvenWeight Sizes
CONSTANTS N = 5
CHECK_DEADLOCK FALSE
