CONSTANTS Kinds = {"DQN","DoubleDQN","AL","PAL","DoublePAL","DPPGreedy"}
 MaxB = 2
 MaxN = 2
 Gen = FALSE
 Mut = ""
SPECIFICATION Spec
INVARIANTS Conforms Lands NoBootstrap
CHECK_DEADLOCK FALSE
