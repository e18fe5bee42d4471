SPECIFICATION Spec
INVARIANTS Rejected Complete Judged
CONSTANTS Folders <- OneLevel Stems = {"s"} Types = {"tsv","json"} Files = 3 Emit = FALSE
CHECK_DEADLOCK FALSE
