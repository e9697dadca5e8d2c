SPECIFICATION Spec
CONSTANTS Steps = 7
 Every = 3
 FileEvery = 2
 SelfStarting = TRUE
 SetupAgain = TRUE
 Origin = "restart"
INVARIANTS SameState SameOutputs
