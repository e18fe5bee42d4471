SPECIFICATION Spec
INVARIANTS Rejected Complete Judged
CONSTANTS Folders <- OneLevel Stems = {"s","t"} Types = {"tsv","json"} Files = 2 Emit = FALSE
CHECK_DEADLOCK FALSE
