CONSTANTS MaxT = 2
 Mut = "nocut"
 Truncs = {0}
SPECIFICATION Spec
INVARIANTS Conforms Balanced OnPolicyNeutral
CHECK_DEADLOCK FALSE
