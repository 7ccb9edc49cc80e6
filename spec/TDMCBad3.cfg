CONSTANTS Kinds = {"DQN"}
 MaxB = 1
 MaxN = 2
 Gen = FALSE
 Mut = "onestep"
SPECIFICATION Spec
INVARIANTS Conforms Lands NoBootstrap
CHECK_DEADLOCK FALSE
