CONSTANTS
  M = 12
  Span = 5
  Lag = 6
  N = 26
  Mode = "SU"
SPECIFICATION Spec
INVARIANTS Judged Distinct
CHECK_DEADLOCK FALSE
