CONSTANT Prop = "@PROP@"
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
POSTCONDITION Accepted
VIEW View
