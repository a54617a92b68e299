SPECIFICATION Spec
CONSTANTS
  MaxTick = 6
  Vals = {1, 2}
  Num = 2
  InNet = 3
  Client = TRUE
  Delay = 0
INVARIANTS Right Honest Whole NoneLost
PROPERTIES InTime Stays
CHECK_DEADLOCK FALSE
