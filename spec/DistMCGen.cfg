CONSTANTS Atoms = 3
 Sub = 2
 MaxAtoms = 2
 Gen = TRUE
 Mut = ""
SPECIFICATION Spec
INVARIANTS Conforms Mass Mean Ends
CHECK_DEADLOCK FALSE
