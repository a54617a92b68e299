CONSTANTS MaxEnts = 3 MaxSrv = 2
SPECIFICATION Spec
VIEW Vw
INVARIANTS Reg NoGhost HostOk
PROPERTY EachStep
CHECK_DEADLOCK FALSE
