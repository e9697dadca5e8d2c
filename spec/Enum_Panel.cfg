SPECIFICATION Spec
CONSTANTS CellNs = {1, 2, 3, 4, 7}
 PointNs = {1, 2, 3, 4, 5, 7}
 AreaNs = {1, 2, 3, 4, 9}
INVARIANT Emit
CHECK_DEADLOCK FALSE
