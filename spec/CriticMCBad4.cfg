CONSTANTS Fam = "td3"
 MaxB = 1
 MaxN = 2
 Gen = FALSE
 Mut = "noterm"
SPECIFICATION Spec
INVARIANTS Conforms Pessimistic NoBootstrap
CHECK_DEADLOCK FALSE
