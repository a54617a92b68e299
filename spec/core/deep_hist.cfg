CONSTANTS T = 8  Vals = {1, 2, 3}  MaxLen = 9
SPECIFICATION SpecH
INVARIANTS AsOf Ordered
CHECK_DEADLOCK FALSE
