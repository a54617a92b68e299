SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
 Mode = "OR"
 NF <- NF3
 MaxPkts = 30
 MaxAcks = 30
 MaxDup = 6
 MaxTime = 400
 Step = 20
 Rtt = 10
 MinDelay = 15
 PerPkt = 2
 LogOps = TRUE
 MaxOps = 45
INVARIANT Emit
INVARIANTS OnlySentWhole AtMostOnce NothingLost ReadWhenComplete InOrder AckTruth MsgAcks MsgAcksOnce LossIsLate NoNeedlessResend AckOwed
