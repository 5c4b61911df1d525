SPECIFICATION MCSpec
CHECK_DEADLOCK FALSE
CONSTANTS
  Params <- VParams
