SPECIFICATION Spec
CONSTANTS NPatch = 2
 Writers = {2, 3}
 Readers = {1}
 MaxSize = 2
 Placement = "arrival"
 Counting = "patch"
 Checks = TRUE
INVARIANTS Faithful Refuses Closed
PROPERTY Complete
