SPECIFICATION Spec
CONSTANTS Depth = 2
 MaxNp = 5
INVARIANT Emit
CHECK_DEADLOCK FALSE
