CONSTANTS N = 3
MaxTick = 3
MaxNow = 2
MaxGen = 1
Delay = 2
Timeout = 3
Stops = 0
Cuts = 0
Skew = 1
SPECIFICATION Spec
INVARIANT Inv
PROPERTY InTime
CHECK_DEADLOCK FALSE
