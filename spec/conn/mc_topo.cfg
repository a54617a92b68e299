CONSTANT Kind = "topo"
SPECIFICATION Spec
INVARIANTS SetLaws ResLaws TopoLaws
CHECK_DEADLOCK FALSE
