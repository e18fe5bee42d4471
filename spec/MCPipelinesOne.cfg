SPECIFICATION Spec
INVARIANTS Exchange Identical Ranges Nothing Shares
CONSTANTS L = 4 NTypes = 1 NTs = {2,4}
CHECK_DEADLOCK FALSE
