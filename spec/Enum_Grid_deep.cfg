SPECIFICATION Spec
CONSTANTS CubeRes = {1, 2, 3, 4}
 MaxPatch = 100
 Nps = {1, 2, 3, 5, 8}
 ResA = {1, 2, 3, 4, 5, 6}
 ResB = {1, 2, 3}
 MaxStrips = 7
INVARIANT Emit
CHECK_DEADLOCK FALSE
