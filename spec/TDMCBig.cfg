CONSTANTS Kinds = {"DoubleDQN","PAL"}
 MaxB = 3
 MaxN = 2
 Gen = FALSE
 Mut = ""
SPECIFICATION Spec
INVARIANTS Conforms Lands NoBootstrap
CHECK_DEADLOCK FALSE
