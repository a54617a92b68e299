SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
 Mode = "SU"
 NF <- NF112
 MaxPkts = 5
 MaxAcks = 3
 MaxDup = 1
 MaxTime = 40
 Step = 20
 Rtt = 10
 MinDelay = 15
 PerPkt = 2
 LogOps = FALSE
 MaxOps = 0
INVARIANTS OnlySentWhole AtMostOnce NothingLost ReadWhenComplete InOrder AckTruth MsgAcks MsgAcksOnce LossIsLate NoNeedlessResend AckOwed
