CONSTANTS N = 3
 MaxE = 2
 MaxP = 3
 Gen = FALSE
 Mut = ""
SPECIFICATION Spec
INVARIANTS Conforms TrainingMode
CHECK_DEADLOCK FALSE
