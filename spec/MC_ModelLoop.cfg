SPECIFICATION Spec
CONSTANTS Lens = {0, 1, 2, 3, 5}
 Dts = {1, 2, 3}
 Freqs = {0, 1, 2, 3, 4}
 Ns = {0, 1, 2}
 MaxOut = 1
 MaxProc = 2
 Depth = 0
INVARIANTS StepsContiguous CoversInterval OutputSchedule OutputOnce FilesGrouped ProcSchedule ProcOnce Order
PROPERTY Terminates
CHECK_DEADLOCK FALSE
