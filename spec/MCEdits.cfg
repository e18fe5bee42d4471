SPECIFICATION Spec
INVARIANTS Conserved NearAndOpposite Maximal Closure MirrorEdits Bounded LeastDistance Fewest
CONSTANTS L = 3 NTypes = 2 NTs = {1,2,3,4}
CHECK_DEADLOCK FALSE
