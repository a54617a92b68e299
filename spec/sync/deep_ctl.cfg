CONSTANTS
 Em = 1024
 Xm = 10240
 Thr = 3
 Sf = 10500
 Dt = 1024
 Range = 15360
 Step = 64
 Drift = 600
 Calm = 3
SPECIFICATION Spec
INVARIANTS TypeOK Bounds JumpOnlyIfLarge Direction
PROPERTIES Patient Converges
CHECK_DEADLOCK FALSE
