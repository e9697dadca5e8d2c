SPECIFICATION Spec
CONSTANTS Lens = {0, 3, 7}
 Dts = {1, 2, 3}
 Freqs = {0, 1, 2, 3}
 Ns = {0, 2}
 MaxOut = 2
 MaxProc = 2
 Depth = 0
INVARIANTS StepsContiguous CoversInterval OutputSchedule OutputOnce FilesGrouped ProcSchedule ProcOnce Order
CHECK_DEADLOCK FALSE
