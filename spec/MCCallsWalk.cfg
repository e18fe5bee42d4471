SPECIFICATION Spec
INVARIANTS DefaultsKept
CONSTANTS GroupOf <- GA OptionOf <- OA Versions = 2 D = 14 Changes = 5 Taints = {TRUE,FALSE} Settings = 6 Emit = TRUE
CHECK_DEADLOCK FALSE
