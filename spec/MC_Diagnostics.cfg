SPECIFICATION Spec
CONSTANTS MaxStep = 2
 Size = 2
 Coefs <- SmallCoefs
 Spacings = {1, 3}
 Variant = "ok"
INVARIANTS Right NoCurl
CHECK_DEADLOCK FALSE
