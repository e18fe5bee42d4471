SPECIFICATION Spec
INVARIANTS BLaws SLaws Order StatisticsLaws WeightLaws CellsLaws
CONSTANTS L = 3 NTypes = 2 NTs = {1,2,3}
CHECK_DEADLOCK FALSE
