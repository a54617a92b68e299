CONSTANTS T = 5  Vals = {1, 2}  MaxLen = 6
SPECIFICATION SpecH
INVARIANTS AsOf Ordered
CHECK_DEADLOCK FALSE
