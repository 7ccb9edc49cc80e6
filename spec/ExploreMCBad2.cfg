CONSTANTS Ends = {0, 10000, 333333, 500000, 1000000}
 Lens = {0, 1, 2, 3, 10, 25}
 T = 30
 Gen = FALSE
 Mut = "off"
SPECIFICATION Spec
INVARIANTS Conforms Bounded Monotone Arrives
CHECK_DEADLOCK FALSE
