SPECIFICATION Spec
CONSTANTS
  MaxTick = 6
  Vals = {1, 2}
  Num = 3
  InNet = 2
  Client = FALSE
  Delay = 2
INVARIANTS Right Honest Whole NoneLost
PROPERTIES InTime Stays
CHECK_DEADLOCK FALSE
