SPECIFICATION SpecG
CONSTANTS Depth = 50
 MaxOps = 0
INVARIANT Emit
CHECK_DEADLOCK FALSE
