SPECIFICATION Spec
INVARIANTS PairsExact Pooled Symmetric ChanceCorrected EvenBias SomeBias
CONSTANTS Coders = {"a","b","c"} Items = {"i"} UnitCounts = {4} NTypes = 1 NTs = {1,2}
CHECK_DEADLOCK FALSE
