SPECIFICATION Spec
CONSTANTS Procs = {1, 2}
 Rounds = 2
 WaitsForSends = TRUE
 ResetsReceived = TRUE
 PostsEveryRound = FALSE
INVARIANTS NoReuse RightRound AllThere OneAhead Nothing
