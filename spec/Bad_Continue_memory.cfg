SPECIFICATION Spec
CONSTANTS Steps = 6
 Every = 1
 FileEvery = 1
 SelfStarting = FALSE
 SetupAgain = TRUE
 Origin = "restart"
INVARIANTS SameState SameOutputs
