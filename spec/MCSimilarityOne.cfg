SPECIFICATION Spec
INVARIANTS BLaws SLaws Order StatisticsLaws WeightLaws CellsLaws
CONSTANTS L = 6 NTypes = 1 NTs = {2,4}
CHECK_DEADLOCK FALSE
