SPECIFICATION Spec
CONSTANTS Orders = {1, 2, 3, 4, 5, 6, 7, 8}
 MaxFe = 12
 FvOrders = {1, 2, 3, 4, 5, 6, 8, 10}
 MaxFv = 30
 Samples = {1, 2, 3, 7, 30, 40, 1000, 10000}
 Deltas = {1, 250, 1000, 3000}
 Zeros = {0, 500, 625}
INVARIANT Emit
CHECK_DEADLOCK FALSE
