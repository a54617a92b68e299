CONSTANT Kind = "res"
SPECIFICATION Spec
INVARIANTS SetLaws ResLaws TopoLaws
CHECK_DEADLOCK FALSE
