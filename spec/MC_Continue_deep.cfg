SPECIFICATION Spec
CONSTANTS Steps = 30
 Every = 3
 FileEvery = 6
 SelfStarting = TRUE
 SetupAgain = TRUE
 Origin = "restart"
INVARIANTS SameState SameOutputs
PROPERTY Ends
