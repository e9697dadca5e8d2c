SPECIFICATION SpecG
CONSTANTS NA = 3
 NC = 2
 ExtLen = 48
 Depth = 60
 Sizes = {}
 MaxNext = 0
 Ds = {0, 1, 2, 3, 4}
 Ws = {1, 2}
INVARIANT Emit
CHECK_DEADLOCK FALSE
