SPECIFICATION Spec
CONSTANTS
  MaxTick = 4
  Vals = {1, 2}
  Num = 2
  InNet = 2
  Client = FALSE
  Delay = 1
INVARIANTS Right Honest Whole NoneLost
PROPERTIES InTime Stays
CHECK_DEADLOCK FALSE
