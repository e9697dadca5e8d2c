SPECIFICATION Spec
CONSTANTS NPatch = 3
 Writers = {1, 2, 3}
 Readers = {1, 2, 3}
 MaxSize = 2
 Placement = "size"
 Counting = "patch"
 Checks = TRUE
INVARIANTS Faithful Refuses Closed
PROPERTY Complete
