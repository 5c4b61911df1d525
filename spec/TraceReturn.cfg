SPECIFICATION Spec
VIEW VW
CHECK_DEADLOCK FALSE
