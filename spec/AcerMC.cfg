CONSTANTS MaxT = 2
 Mut = ""
 Truncs = {0, 2}
SPECIFICATION Spec
INVARIANTS Conforms Balanced OnPolicyNeutral
CHECK_DEADLOCK FALSE
