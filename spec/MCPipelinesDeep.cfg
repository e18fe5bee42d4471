SPECIFICATION Spec
INVARIANTS Exchange Identical Ranges Nothing Shares
CONSTANTS L = 3 NTypes = 2 NTs = {1,2,3}
CHECK_DEADLOCK FALSE
