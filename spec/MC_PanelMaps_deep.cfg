SPECIFICATION Spec
CONSTANTS Ns = {1, 2, 3, 5, 8}
INVARIANTS RoundTrip OnePanel Through Mutual Diagonal Cells
CHECK_DEADLOCK FALSE
