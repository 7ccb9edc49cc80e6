CONSTANTS N = 2
 Start0 = 3
 Batch = 1
 Ui = 2
 Tui = 4
 Ntimes = 1
 Fam = "dqn"
 SoftSync = FALSE
 Delay = 1
 Steps = 3
 Gen = FALSE
 Mut = "nostop"
SPECIFICATION Spec
INVARIANTS Conforms UpdateCount HardTarget
CHECK_DEADLOCK FALSE
