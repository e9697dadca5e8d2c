SPECIFICATION Spec
CONSTANTS MaxOrder = 3
 MaxElements = 3
 Thick = {1, 2}
 Plant = "none"
INVARIANT Exact Constants
CHECK_DEADLOCK FALSE
