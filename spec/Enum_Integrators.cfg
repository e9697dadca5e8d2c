SPECIFICATION Spec
CONSTANTS MaxLen = 2
 Names = {"erk", "erk/fe", "erk/rk4", "erk/rk3", "erk/kgu35", "erk/ssprk53", "strang", "strang/fe", "strang/rk4", "strang/rk3", "strang/kgu35", "strang/ssprk53", "ars222", "ars232", "ark232", "gark2", "ars343", "ars343b", "ars443", "ssp3_332", "spex"}
 Split = {"strang", "strang/fe", "strang/rk4", "strang/rk3", "strang/kgu35", "strang/ssprk53"}
 Ocs = {0, 50}
 Ms = {1, 3}
INVARIANT Emit
CHECK_DEADLOCK FALSE
