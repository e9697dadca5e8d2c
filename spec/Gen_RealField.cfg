SPECIFICATION Spec
CONSTANTS Depth = 5
 MaxNp = 8
INVARIANT Emit
CHECK_DEADLOCK FALSE
