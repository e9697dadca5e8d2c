SPECIFICATION Spec
CONSTANTS NPatch = 3
 Writers = {2, 3}
 Readers = {1}
 MaxSize = 1
 Placement = "size"
 Counting = "process"
 Checks = TRUE
INVARIANTS Faithful Refuses Closed
PROPERTY Complete
