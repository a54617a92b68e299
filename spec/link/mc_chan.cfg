CONSTANTS Lat = 0 Jit = 0 LossG = 0 LossB = 0 FlipG = 0 FlipB = 0 MaxT = 0 MaxPk = 3 Cap = 2 TwoApps = TRUE Clients = {1, 2}
SPECIFICATION SpecX
INVARIANTS FifoX BoundX
PROPERTIES NoticeX
CHECK_DEADLOCK FALSE
