SPECIFICATION Spec
CONSTANTS CellNs = {1, 2, 3, 4, 5, 6, 7, 8, 12, 16}
 PointNs = {1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 16, 20}
 AreaNs = {1, 2, 3, 4, 5, 9, 16, 25}
INVARIANT Emit
CHECK_DEADLOCK FALSE
