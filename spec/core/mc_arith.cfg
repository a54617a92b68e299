CONSTANTS M = 32  Near = 6
SPECIFICATION Spec
INVARIANTS WrapLaws TickLaws Laws64 VarLaws
CHECK_DEADLOCK FALSE
