CONSTANTS MaxT = 2
 Mut = "boot"
 Truncs = {4}
SPECIFICATION Spec
INVARIANTS Conforms Balanced OnPolicyNeutral
CHECK_DEADLOCK FALSE
