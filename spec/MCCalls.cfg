SPECIFICATION Spec
INVARIANTS Memoryless DefaultsKept
PROPERTIES ArgumentsKept SettingsKept
CONSTANTS GroupOf <- G4 OptionOf <- O4 Versions = 2 D = 3 Changes = 2 Taints = {TRUE, FALSE} Settings = 2 Emit = FALSE
CHECK_DEADLOCK FALSE
