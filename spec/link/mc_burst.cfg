CONSTANTS Lat = 1 Jit = 2 LossG = 0 LossB = 100 FlipG = 100 FlipB = 100 MaxT = 4 MaxPk = 4 Cap = 0 TwoApps = FALSE Clients = {1, 2}
SPECIFICATION SpecC
INVARIANTS AcceptsReal NeverEarly NeverTwice Conserved TotalLoss NoLoss Prompt
CHECK_DEADLOCK FALSE
