CONSTANTS MaxT = 2
 Mut = ""
 Truncs = {0, 1, 2, 4, 6, 40}
SPECIFICATION Spec
INVARIANTS Conforms Balanced OnPolicyNeutral
CHECK_DEADLOCK FALSE
