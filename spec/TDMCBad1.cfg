CONSTANTS Kinds = {"DoubleDQN"}
 MaxB = 1
 MaxN = 2
 Gen = FALSE
 Mut = "swap"
SPECIFICATION Spec
INVARIANTS Conforms Lands NoBootstrap
CHECK_DEADLOCK FALSE
