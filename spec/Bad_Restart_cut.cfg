SPECIFICATION Spec
CONSTANTS NPatch = 2
 Writers = {1}
 Readers = {1, 2}
 MaxSize = 2
 Placement = "size"
 Counting = "patch"
 Checks = FALSE
INVARIANTS Faithful Refuses Closed
PROPERTY Complete
