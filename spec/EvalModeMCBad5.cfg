CONSTANTS N = 3
 MaxE = 2
 MaxP = 2
 Gen = FALSE
 Mut = "noreset"
SPECIFICATION Spec
INVARIANTS Conforms TrainingMode
CHECK_DEADLOCK FALSE
