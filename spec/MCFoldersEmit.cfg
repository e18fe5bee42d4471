SPECIFICATION Spec
CONSTANTS Folders <- TwoLevels Stems = {"s","t"} Types = {"tsv","json"} Files = 2 Emit = TRUE
CHECK_DEADLOCK FALSE
