SPECIFICATION Spec
CONSTANTS MaxSteps = 3
 MaxM = 2
 Ocs = {0}
 Fault = "carry"
INVARIANTS Consistent Settled Orders
CHECK_DEADLOCK FALSE
