SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
 Att <- A3
 Addr <- Mix4
 MaxSlots = 2
 MaxTicks = 30
 MaxLinks = 12
 MaxPay = 30
 MaxConn = 6
 Spoof = TRUE
 Stops = TRUE
 LogOps = TRUE
 MaxOps = 70
INVARIANTS OnlyValid OnlyAnswered ClientTruth Slots OneEach OnePend UpOnce UpSent UpFrom Gone Emit
