CONSTANTS Kinds = {"DQN"}
 MaxB = 1
 MaxN = 2
 Gen = FALSE
 Mut = "noterm"
SPECIFICATION Spec
INVARIANTS Conforms Lands NoBootstrap
CHECK_DEADLOCK FALSE
