CONSTANTS Atoms = 3
 Sub = 4
 MaxAtoms = 3
 Gen = FALSE
 Mut = ""
SPECIFICATION Spec
INVARIANTS Conforms Mass Mean Ends
CHECK_DEADLOCK FALSE
