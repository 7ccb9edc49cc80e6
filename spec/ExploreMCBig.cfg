CONSTANTS Ends = {0, 1000, 10000, 100000, 333333, 500000, 700000, 950000, 1000000}
 Lens = {0, 1, 2, 3, 7, 10, 25, 60, 100, 1000}
 T = 120
 Gen = FALSE
 Mut = ""
SPECIFICATION Spec
INVARIANTS Conforms Bounded Monotone Arrives
CHECK_DEADLOCK FALSE
