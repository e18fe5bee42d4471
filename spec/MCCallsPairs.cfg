SPECIFICATION Spec
INVARIANTS DefaultsKept
CONSTANTS GroupOf <- GA OptionOf <- OA Versions = 2 D = 2 Changes = 1 Taints = {TRUE,FALSE} Settings = 0 Emit = TRUE
CHECK_DEADLOCK FALSE
