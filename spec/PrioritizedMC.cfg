CONSTANTS
  Cap = 3
  MaxV = 4
  Prios = {1, 3}
  MaxDraw = 2
  Depth = 0
SPECIFICATION Spec
INVARIANTS Positive MaxIsMax Fifo Bound ProbSum
PROPERTY OnlySampledChange
VIEW MCView
CHECK_DEADLOCK FALSE
