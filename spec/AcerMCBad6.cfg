CONSTANTS MaxT = 2
 Mut = "skip"
 Truncs = {4}
SPECIFICATION Spec
INVARIANTS Conforms Balanced OnPolicyNeutral
CHECK_DEADLOCK FALSE
