CONSTANT Kind = "set"
SPECIFICATION Spec
INVARIANTS SetLaws ResLaws TopoLaws
CHECK_DEADLOCK FALSE
