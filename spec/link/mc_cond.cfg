CONSTANTS Lat = 2 Jit = 1 LossG = 50 LossB = 100 FlipG = 50 FlipB = 50 MaxT = 4 MaxPk = 3 Cap = 0 TwoApps = FALSE Clients = {1, 2}
SPECIFICATION SpecC
INVARIANTS AcceptsReal NeverEarly NeverTwice Conserved TotalLoss NoLoss Prompt
CHECK_DEADLOCK FALSE
