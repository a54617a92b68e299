CONSTANTS T = 5  Vals = {1, 2}  MaxLen = 6
SPECIFICATION SpecC
INVARIANTS SameAnswers FirstSolid
CHECK_DEADLOCK FALSE
