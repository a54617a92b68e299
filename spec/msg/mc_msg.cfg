SPECIFICATION Spec
CONSTANTS
  Chans = {1, 3, 4}
  MaxSends = 3
  MaxTick = 2
  MaxFrames = 3
  MaxDowns = 1
  MaxMoves = 2
  Lag = 1
  Room = 2
  MaxLag <- Lag
  MaxPending <- Room
INVARIANTS OnePlace Once NotEarly Ordered Bounded
PROPERTY NotLate
CHECK_DEADLOCK FALSE
