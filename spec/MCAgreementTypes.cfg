SPECIFICATION Spec
INVARIANTS PairsExact Pooled Symmetric ChanceCorrected EvenBias SomeBias
CONSTANTS Coders = {"a","b"} Items = {"i"} UnitCounts = {3} NTypes = 2 NTs = {2}
CHECK_DEADLOCK FALSE
