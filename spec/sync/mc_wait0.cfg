CONSTANTS
 Window = 0
 MaxTick = 12
 MaxQ = 14
SPECIFICATION Spec
INVARIANTS Bounded
PROPERTIES Stops Runs
CHECK_DEADLOCK FALSE
