SPECIFICATION Spec
CONSTANTS Res = {1, 2}
 Ords = {2, 3, 4}
 Opens <- SomeOpen
INVARIANTS Mutual Touch SamePoint Self Count Complete AvgIsMean
CHECK_DEADLOCK FALSE
