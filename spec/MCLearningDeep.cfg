SPECIFICATION Spec
INVARIANTS Ranges Dual Between Pooled OneClass
CONSTANTS Labels = {0, 1, 2} Values = {0, 2}
CHECK_DEADLOCK FALSE
