SPECIFICATION Spec
CONSTANTS Depth = 0
 MaxOps = 7
INVARIANTS EachOnce NoMore Nesting
CHECK_DEADLOCK FALSE
