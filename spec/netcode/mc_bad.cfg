SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
 Att <- ABad
 Addr <- Diff2
 MaxSlots = 1
 MaxTicks = 3
 MaxLinks = 2
 MaxPay = 0
 MaxConn = 2
 Spoof = FALSE
 Stops = FALSE
 LogOps = FALSE
 MaxOps = 0
INVARIANTS OnlyValid OnlyAnswered ClientTruth Slots OneEach OnePend UpOnce UpSent UpFrom Gone Emit
