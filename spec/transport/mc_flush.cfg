SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
 MaxMsgs = 3
 Prios = {1, 2}
 Burst = 2
 MaxTime = 2
INVARIANTS Cap NotAfterGivingUp Conserved Whole
