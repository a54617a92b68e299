CONSTANTS
 Window = 7
 MaxTick = 60
 MaxQ = 40
SPECIFICATION Spec
INVARIANTS Bounded
PROPERTIES Stops Runs
CHECK_DEADLOCK FALSE
