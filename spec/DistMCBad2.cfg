CONSTANTS Atoms = 3
 Sub = 2
 MaxAtoms = 1
 Gen = FALSE
 Mut = "noclip"
SPECIFICATION Spec
INVARIANTS Conforms Mass Mean Ends
CHECK_DEADLOCK FALSE
