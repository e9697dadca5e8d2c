SPECIFICATION Spec
CONSTANTS MaxStep = 3
 Size = 2
 Coefs <- SmallCoefs
 Spacings = {1, 3}
 Variant = "ok"
INVARIANTS Right NoCurl
CHECK_DEADLOCK FALSE
