SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
 Mode = "UA"
 NF <- NF121
 MaxPkts = 4
 MaxAcks = 3
 MaxDup = 1
 MaxTime = 20
 Step = 20
 Rtt = 10
 MinDelay = 15
 PerPkt = 2
 LogOps = FALSE
 MaxOps = 0
INVARIANTS OnlySentWhole AtMostOnce NothingLost ReadWhenComplete InOrder AckTruth MsgAcks MsgAcksOnce LossIsLate NoNeedlessResend AckOwed
