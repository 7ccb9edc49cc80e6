CONSTANTS Atoms = 3
 Sub = 2
 MaxAtoms = 1
 Gen = FALSE
 Mut = "upper"
SPECIFICATION Spec
INVARIANTS Conforms Mass Mean Ends
CHECK_DEADLOCK FALSE
