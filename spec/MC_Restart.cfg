SPECIFICATION Spec
CONSTANTS NPatch = 2
 Writers = {1, 2, 3}
 Readers = {1, 2}
 MaxSize = 2
 Placement = "size"
 Counting = "patch"
 Checks = TRUE
INVARIANTS Faithful Refuses Closed
PROPERTY Complete
