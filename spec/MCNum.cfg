SPECIFICATION Spec
INVARIANTS Naturals Rationals Observations Statistics
CONSTANTS Nums <- SomeNums
 Samples <- SomeSamples
CHECK_DEADLOCK FALSE
