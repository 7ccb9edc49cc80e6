CONSTANTS MaxN = 3
 Nets = {1, 2, 3}
 Lens <- LensS
 Gen = FALSE
 Mut = "pad"
SPECIFICATION Spec
INVARIANTS Conforms Consistent
CHECK_DEADLOCK FALSE
