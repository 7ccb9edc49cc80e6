CONSTANTS Ends = {0, 10000, 333333, 500000, 1000000}
 Lens = {0, 1, 2, 3, 10, 25}
 T = 0
 Gen = TRUE
 Mut = ""
SPECIFICATION Spec
INVARIANTS Conforms Bounded Monotone Arrives
CHECK_DEADLOCK FALSE
