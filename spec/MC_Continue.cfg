SPECIFICATION Spec
CONSTANTS Steps = 12
 Every = 2
 FileEvery = 4
 SelfStarting = TRUE
 SetupAgain = TRUE
 Origin = "restart"
INVARIANTS SameState SameOutputs
PROPERTY Ends
