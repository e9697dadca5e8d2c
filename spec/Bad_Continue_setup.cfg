SPECIFICATION Spec
CONSTANTS Steps = 6
 Every = 1
 FileEvery = 1
 SelfStarting = TRUE
 SetupAgain = FALSE
 Origin = "restart"
INVARIANTS SameState SameOutputs
