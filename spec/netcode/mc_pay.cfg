SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
 Att <- A2
 Addr <- Diff2
 MaxSlots = 1
 MaxTicks = 2
 MaxLinks = 1
 MaxPay = 1
 MaxConn = 1
 Spoof = FALSE
 Stops = TRUE
 LogOps = FALSE
 MaxOps = 0
INVARIANTS OnlyValid OnlyAnswered ClientTruth Slots OneEach OnePend UpOnce UpSent UpFrom Gone Emit
