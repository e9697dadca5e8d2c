SPECIFICATION Spec
CONSTANTS N = 6
 Procs = {1, 2, 3}
 Outputs = 2
 Variant = "ok"
INVARIANTS Sampled OnePlace
CHECK_DEADLOCK FALSE
