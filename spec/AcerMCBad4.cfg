CONSTANTS MaxT = 2
 Mut = "mu"
 Truncs = {4}
SPECIFICATION Spec
INVARIANTS Conforms Balanced OnPolicyNeutral
CHECK_DEADLOCK FALSE
