SPECIFICATION Spec

CONSTANTS Mats = {"m"} Labels = {0, 1} Values = {2} Handles = {"h"} D = 3 Emit = TRUE
CHECK_DEADLOCK FALSE
