CONSTANTS N = 2
MaxTick = 4
MaxNow = 4
MaxGen = 2
Delay = 2
Timeout = 3
Stops = 1
Cuts = 0
Skew = 1
SPECIFICATION Spec
INVARIANT Inv
PROPERTY InTime
CHECK_DEADLOCK FALSE
