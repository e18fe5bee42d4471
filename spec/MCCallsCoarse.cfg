SPECIFICATION Spec
INVARIANTS DefaultsKept
CONSTANTS GroupOf <- GA OptionOf <- OA Versions = 2 D = 2 Changes = 0 Taints = {FALSE} Settings = 2 Emit = TRUE
CHECK_DEADLOCK FALSE
