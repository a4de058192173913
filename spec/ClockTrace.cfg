SPECIFICATION TSpec
CONSTANTS N = 1
  MaxTime = 1
CHECK_DEADLOCK FALSE
