SPECIFICATION Spec
CONSTANTS Ns = {1, 2, 3, 4}
INVARIANTS RoundTrip OnePanel Through Mutual Diagonal Cells
CHECK_DEADLOCK FALSE
