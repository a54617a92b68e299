CONSTANTS
 Pings = 3
 Places = 2
 MaxT = 3
 Ids = 4
SPECIFICATION Spec
INVARIANTS Once Within Sane Room
CHECK_DEADLOCK FALSE
