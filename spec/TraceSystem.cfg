INIT Init
NEXT Next
VIEW VW
CHECK_DEADLOCK FALSE
CONSTANT Params = {0}
