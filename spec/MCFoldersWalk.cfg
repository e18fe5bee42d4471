SPECIFICATION Spec
CONSTANTS Folders <- TwoLevels Stems = {"s","t"} Types = {"tsv","json"} Files = 6 Emit = TRUE
CHECK_DEADLOCK FALSE
