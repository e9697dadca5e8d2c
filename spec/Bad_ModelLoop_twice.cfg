SPECIFICATION SpecB
CONSTANTS Lens = {0, 3, 7}
 Dts = {1, 2, 3}
 Freqs = {0, 2, 3}
 Ns = {2}
 MaxOut = 1
 MaxProc = 2
 Depth = 0
 Fault = "twice"
INVARIANTS StepsContiguous CoversInterval OutputSchedule OutputOnce FilesGrouped ProcSchedule ProcOnce Order
CHECK_DEADLOCK FALSE
