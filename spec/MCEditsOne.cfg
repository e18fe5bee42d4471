SPECIFICATION Spec
INVARIANTS Conserved NearAndOpposite Maximal Closure MirrorEdits Bounded LeastDistance Fewest
CONSTANTS L = 6 NTypes = 1 NTs = {1,2,3,5}
CHECK_DEADLOCK FALSE
