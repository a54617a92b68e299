CONSTANTS Lat = 0 Jit = 0 LossG = 0 LossB = 0 FlipG = 0 FlipB = 0 MaxT = 0 MaxPk = 7 Cap = 0 TwoApps = FALSE Clients = {1, 2}
SPECIFICATION SpecU
INVARIANTS OneLinkU OnceU ReliableU MapU
CHECK_DEADLOCK FALSE
