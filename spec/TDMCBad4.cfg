CONSTANTS Kinds = {"DQN"}
 MaxB = 1
 MaxN = 2
 Gen = FALSE
 Mut = "noweight"
SPECIFICATION Spec
INVARIANTS Conforms Lands NoBootstrap
CHECK_DEADLOCK FALSE
