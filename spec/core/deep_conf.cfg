CONSTANTS T = 7  Vals = {1, 2}  MaxLen = 8
SPECIFICATION SpecC
INVARIANTS SameAnswers FirstSolid
CHECK_DEADLOCK FALSE
