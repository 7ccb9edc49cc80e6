CONSTANTS N = 2
 Start0 = 3
 Batch = 1
 Ui = 2
 Tui = 6
 Ntimes = 2
 Fam = "dqn"
 SoftSync = FALSE
 Delay = 1
 Steps = 6
 Gen = FALSE
 Mut = ""
SPECIFICATION Spec
INVARIANTS Conforms UpdateCount HardTarget
CHECK_DEADLOCK FALSE
