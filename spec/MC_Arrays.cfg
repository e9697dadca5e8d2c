SPECIFICATION Spec
CONSTANTS NA = 2
 NC = 1
 ExtLen = 3
 Depth = 0
 Sizes = {1, 3}
 MaxNext = 4
 Ds = {}
 Ws = {}
INVARIANTS OwnedOnce NoDangling Sized Disjoint Small
CHECK_DEADLOCK FALSE
