SPECIFICATION Spec
INVARIANTS PairsExact Pooled Symmetric ChanceCorrected EvenBias SomeBias
CONSTANTS Coders = {"a","b","c"} Items = {"i","j"} UnitCounts = {3,4} NTypes = 1 NTs = {2}
CHECK_DEADLOCK FALSE
