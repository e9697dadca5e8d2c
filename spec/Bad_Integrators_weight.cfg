SPECIFICATION Spec
CONSTANTS MaxSteps = 3
 MaxM = 2
 Ocs = {0, 100}
 Fault = "weight"
INVARIANTS Consistent Settled Orders
CHECK_DEADLOCK FALSE
