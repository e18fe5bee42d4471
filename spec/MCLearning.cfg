SPECIFICATION Spec
INVARIANTS Ranges Dual Between Pooled OneClass
CONSTANTS Labels = {0, 1} Values = {0, 1, 3}
CHECK_DEADLOCK FALSE
