SPECIFICATION Spec
CONSTANTS N = 3
 Procs = {1, 2, 3}
 Outputs = 2
 Variant = "all"
INVARIANTS Sampled
CHECK_DEADLOCK FALSE
