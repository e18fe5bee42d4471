SPECIFICATION Spec
INVARIANTS Agreed Accepted ShapesAgree SurplusRejected
CONSTANTS Most = 4 Emit = FALSE
CHECK_DEADLOCK FALSE
