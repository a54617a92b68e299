CONSTANTS N = 2
MaxTick = 4
MaxNow = 4
MaxGen = 1
Delay = 2
Timeout = 3
Stops = 0
Cuts = 1
Skew = 1
SPECIFICATION Spec
INVARIANT Inv
PROPERTY InTime
CHECK_DEADLOCK FALSE
