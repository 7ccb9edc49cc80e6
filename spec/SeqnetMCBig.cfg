CONSTANTS MaxN = 5
 Nets = {1, 2, 3, 4, 5}
 Lens <- LensB
 Gen = FALSE
 Mut = ""
SPECIFICATION Spec
INVARIANTS Conforms Consistent
CHECK_DEADLOCK FALSE
