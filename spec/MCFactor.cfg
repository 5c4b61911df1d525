SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANT Params = {0}
