SPECIFICATION Spec
INVARIANTS PairsExact Pooled Symmetric ChanceCorrected EvenBias SomeBias
CONSTANTS Coders = {"a","b"} Items = {"i","j"} UnitCounts = {3} NTypes = 1 NTs = {2}
CHECK_DEADLOCK FALSE
