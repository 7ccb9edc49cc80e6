CONSTANTS MaxN = 3
 Nets = {5}
 Lens <- LensS
 Gen = FALSE
 Mut = "branch"
SPECIFICATION Spec
INVARIANTS Conforms Consistent
CHECK_DEADLOCK FALSE
