CONSTANTS MaxEnts = 4 MaxSrv = 1
SPECIFICATION Spec
VIEW Vw
INVARIANTS Reg NoGhost HostOk
PROPERTY EachStep
CHECK_DEADLOCK FALSE
