CONSTANTS MaxN = 4
 Nets = {1}
 Lens <- LensS
 Gen = TRUE
 Mut = ""
SPECIFICATION Spec
INVARIANTS Conforms Consistent
CHECK_DEADLOCK FALSE
