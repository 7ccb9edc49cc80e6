CONSTANTS Atoms = 4
 Sub = 4
 MaxAtoms = 2
 Gen = FALSE
 Mut = ""
SPECIFICATION Spec
INVARIANTS Conforms Mass Mean Ends
CHECK_DEADLOCK FALSE
