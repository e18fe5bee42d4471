SPECIFICATION Spec
CONSTANTS Most = 3 Emit = TRUE
CHECK_DEADLOCK FALSE
