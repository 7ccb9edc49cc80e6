CONSTANTS Kinds = {"DQN"}
 MaxB = 2
 MaxN = 2
 Gen = TRUE
 Mut = ""
SPECIFICATION Spec
INVARIANTS Conforms Lands NoBootstrap
CHECK_DEADLOCK FALSE
