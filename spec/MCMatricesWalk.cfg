SPECIFICATION Spec

CONSTANTS Mats = {"m", "n"} Labels = {0, 1, 2} Values = {1, 3} Handles = {"h", "i"} D = 14 Emit = TRUE
CHECK_DEADLOCK FALSE
