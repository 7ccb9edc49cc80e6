CONSTANTS MaxT = 2
 Mut = "nocorr"
 Truncs = {2}
SPECIFICATION Spec
INVARIANTS Conforms Balanced OnPolicyNeutral
CHECK_DEADLOCK FALSE
