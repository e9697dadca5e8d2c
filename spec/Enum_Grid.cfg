SPECIFICATION Spec
CONSTANTS CubeRes = {1, 2, 3}
 MaxPatch = 56
 Nps = {1, 4}
 ResA = {1, 2, 4}
 ResB = {1, 2}
 MaxStrips = 5
INVARIANT Emit
CHECK_DEADLOCK FALSE
