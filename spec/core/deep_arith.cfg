CONSTANTS M = 256  Near = 12
SPECIFICATION Spec
INVARIANTS WrapLaws TickLaws Laws64 VarLaws
CHECK_DEADLOCK FALSE
