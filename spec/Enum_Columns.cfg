SPECIFICATION Spec
CONSTANTS Orders = {1, 2, 3, 4, 5, 6}
 MaxFe = 6
 FvOrders = {2, 3, 4, 6}
 MaxFv = 9
 Samples = {1, 2, 3, 7, 30, 40, 1000}
 Deltas = {1, 250, 1000, 3000}
 Zeros = {0, 500, 625}
INVARIANT Emit
CHECK_DEADLOCK FALSE
