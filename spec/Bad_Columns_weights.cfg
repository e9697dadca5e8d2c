SPECIFICATION Spec
CONSTANTS MaxOrder = 2
 MaxElements = 2
 Thick = {1, 2}
 Plant = "weights"
INVARIANT Exact Constants
CHECK_DEADLOCK FALSE
