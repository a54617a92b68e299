CONSTANTS
  M = 20
  Span = 9
  Lag = 10
  N = 44
  Mode = "OR"
SPECIFICATION Spec
INVARIANTS Judged Distinct
CHECK_DEADLOCK FALSE
