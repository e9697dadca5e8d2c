SPECIFICATION Spec
CONSTANTS MaxOrder = 4
 MaxElements = 4
 Thick = {1, 2, 3}
 Plant = "none"
INVARIANT Exact Constants
CHECK_DEADLOCK FALSE
