SPECIFICATION Spec
INVARIANTS LastGiven Independent ClassesExact Reads
PROPERTIES Frame QueriesChangeNothing
VIEW View
CONSTANTS Mats = {"m"} Labels = {0, 1} Values = {2} Handles = {"h"} D = 4 Emit = FALSE
CHECK_DEADLOCK FALSE
